//! Reference models of the two file formats, written from the format descriptions and independent
//! of the code under test (only the wyhash crate, an external dependency, is shared).

use std::collections::BTreeSet;

/// f64 as text in replay files: exact and NaN-safe
pub mod f64s {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        if v.is_nan() {
            s.serialize_str(&format!("nan:{:x}", v.to_bits()))
        } else {
            s.serialize_str(&format!("{v:?}"))
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("nan:") {
            return u64::from_str_radix(h, 16)
                .map(f64::from_bits)
                .map_err(serde::de::Error::custom);
        }
        s.parse().map_err(serde::de::Error::custom)
    }
}

pub fn le64(b: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(b[at..at + 8].try_into().unwrap())
}

/// ceil of a computed value; the set of answers a correct implementation may give when
/// floating point noise puts the value next to an integer
fn ceil_set(x: f64) -> Vec<u64> {
    let eps = 1e-9 * x.abs().max(1.0);
    let mut v = vec![(x - eps).ceil().max(0.0) as u64, (x + eps).ceil().max(0.0) as u64];
    v.push(x.ceil().max(0.0) as u64);
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- v1 (DCSO)

pub const V1_HEADER: usize = 48;

#[derive(Clone, Debug, PartialEq)]
pub struct RefV1 {
    pub cap: u64,
    pub fpp: f64,
    pub k: u64,
    pub m: u64,
    pub n: u64,
    pub words: Vec<u64>,
    pub data: Vec<u8>,
}

fn fnv1_64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = h.wrapping_mul(0x100000001b3) ^ x as u64;
    }
    h
}

impl RefV1 {
    /// (m, k) prescribed by the format for given parameters, as sets (float noise)
    pub fn geometry(cap: u64, fpp: f64) -> Vec<(u64, u64)> {
        if cap == 0 {
            return vec![(0, 0)];
        }
        let ln2 = std::f64::consts::LN_2;
        // |ceil(n ln p / ln2^2)|: the argument is negative, so this is floor of the absolute value
        let x = cap as f64 * (-fpp.ln()) / (ln2 * ln2);
        let eps = 1e-9 * x.max(1.0);
        let mut out = vec![];
        for m in [x, x - eps, x + eps] {
            let m = (m.max(0.0).floor() as u64).max(1);
            for k in ceil_set(ln2 * m as f64 / cap as f64) {
                if !out.contains(&(m, k)) {
                    out.push((m, k));
                }
            }
        }
        out
    }

    pub fn with_geometry(cap: u64, fpp: f64, m: u64, k: u64) -> Self {
        RefV1 {
            cap,
            fpp,
            k,
            m,
            n: 0,
            words: vec![0; m.div_ceil(64) as usize],
            data: vec![],
        }
    }

    pub fn positions(&self, v: &[u8]) -> Vec<u64> {
        const M: u128 = 18446744073709551557;
        const G: u64 = 18446744073709550147;
        let mut h = (fnv1_64(v) as u128 % M) as u64;
        (0..self.k)
            .map(|_| {
                // the product wraps modulo 2^64 in the reference implementation (uint64)
                h = (h.wrapping_mul(G) as u128 % M) as u64;
                h % self.m
            })
            .collect()
    }

    fn bit(&self, i: u64) -> bool {
        self.words[(i / 64) as usize] >> (i % 64) & 1 == 1
    }

    pub fn contains(&self, v: &[u8]) -> bool {
        self.m > 0 && self.cap > 0 && self.positions(v).iter().all(|&i| self.bit(i))
    }

    /// None: refused
    pub fn insert(&mut self, v: &[u8]) -> Option<bool> {
        if self.contains(v) {
            return Some(false);
        }
        if self.n >= self.cap || self.m == 0 {
            return None;
        }
        for i in self.positions(v) {
            self.words[(i / 64) as usize] |= 1 << (i % 64);
        }
        self.n += 1;
        Some(true)
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend(1u64.to_le_bytes());
        o.extend(self.cap.to_le_bytes());
        o.extend(self.fpp.to_le_bytes());
        o.extend(self.k.to_le_bytes());
        o.extend(self.m.to_le_bytes());
        o.extend(self.n.to_le_bytes());
        for w in &self.words {
            o.extend(w.to_le_bytes());
        }
        o.extend(&self.data);
        o
    }
}

// ---------------------------------------------------------------- v2 (poppy)

pub const BUCKET: usize = 4096;
pub const BUCKET_BITS: u64 = 32768;
pub const V2_HEADER: usize = 48; // without the bucket count, which follows the cache
const SEED: u64 = 0x706f707079533d42;

#[derive(Clone, Debug, PartialEq)]
pub struct RefV2 {
    pub opt: u8,
    pub cap: u64,
    pub fpp: f64,
    pub k: u64,
    pub n: u64,
    pub cache: Vec<u8>,
    pub buckets: Vec<u8>,
    pub data: Vec<u8>,
}

/// hash of a byte string value
pub fn h1(v: &[u8]) -> u64 {
    if v.len() <= 8 {
        let mut t = [0u8; 8];
        t[..v.len()].copy_from_slice(v);
        u64::from_le_bytes(t)
    } else {
        wyhash::wyhash(v, SEED)
    }
}

/// passes on what a value writes when hashed, and nothing else
struct Plain(wyhash::WyHash);

impl std::hash::Hasher for Plain {
    fn write(&mut self, b: &[u8]) {
        std::hash::Hasher::write(&mut self.0, b)
    }
    fn finish(&self) -> u64 {
        std::hash::Hasher::finish(&self.0)
    }
}

/// hash of a value of another type
pub fn h1_typed<T: std::hash::Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Plain(wyhash::WyHash::with_seed(SEED));
    v.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// (k, cache bytes, buckets)
pub type Geo = (u64, u64, u64);

impl RefV2 {
    pub fn geometry(cap: u64, fpp: f64, opt: u8) -> Vec<Geo> {
        let ln2 = std::f64::consts::LN_2;
        let x = BUCKET_BITS as f64 * ln2 * ln2 / -fpp.ln();
        let mut out: Vec<Geo> = vec![];
        let eps = 1e-9 * x.max(1.0);
        let caps: BTreeSet<u64> = if fpp == 1.0 {
            [u64::MAX].into()
        } else {
            [x, x - eps, x + eps].iter().map(|x| x.floor() as u64).collect()
        };
        for bcap in caps {
            // the quotient is exact where it is whole
            let nbs = if cap < 1 << 50 && bcap > 0 { vec![cap.div_ceil(bcap)] } else { ceil_set(cap as f64 / bcap as f64) };
            for nb in nbs {
                // a positive quotient, however small, needs one bucket
                let nb = if cap > 0 { nb.max(1) } else { nb };
                if opt < 2 {
                    let r = ln2 * BUCKET_BITS as f64 / bcap as f64;
                    for k in ceil_set(r) {
                        out.push((k.max(1), 0, nb));
                    }
                } else {
                    let cbits = cap.next_power_of_two();
                    let kk = (ln2 * cbits as f64 / cap as f64).ceil();
                    let p = if cap == 0 {
                        0.0
                    } else {
                        (1.0 - (-kk * cap as f64 / cbits as f64).exp()).powf(kk)
                    };
                    let bpe = (BUCKET_BITS as f64 / bcap as f64).round();
                    for k in ceil_set(ln2 * p * bpe) {
                        let k = if cap > 0 { k.max(1) } else { k };
                        let nb = if opt == 2 { nb.next_power_of_two() } else { nb };
                        out.push((k, cbits.div_ceil(8), nb));
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    pub fn with_geometry(cap: u64, fpp: f64, opt: u8, g: Geo) -> Self {
        RefV2 {
            opt,
            cap,
            fpp,
            k: g.0,
            n: 0,
            cache: vec![0; g.1 as usize],
            buckets: vec![0; g.2 as usize * BUCKET],
            data: vec![],
        }
    }

    pub fn n_buckets(&self) -> u64 {
        (self.buckets.len() / BUCKET) as u64
    }

    /// (index cache bit, bits in the flattened buckets)
    pub fn positions(&self, h: u64) -> (Option<u64>, Vec<u64>) {
        let mut s = h;
        s ^= s << 12;
        s ^= s >> 25;
        s ^= s << 27;
        let bh = s.wrapping_mul(0x2545_f491_4f6c_dd1d);
        let base = (bh % self.n_buckets()) * BUCKET_BITS;
        let cbit = (!self.cache.is_empty()).then(|| bh & (self.cache.len() as u64 * 8 - 1));
        // enhanced double hashing: x0 = h, d1 = H(h), x_i = x_{i-1} + d_i, d_{i+1} = d_i + i
        let mut bits = Vec::with_capacity(self.k as usize);
        let mut x = h;
        let mut d = 0u64;
        for i in 0..self.k {
            if i == 1 {
                d = wyhash::wyhash(&h.to_be_bytes(), SEED);
            }
            if i >= 1 {
                x = x.wrapping_add(d);
                d = d.wrapping_add(i);
            }
            bits.push(base + (x % BUCKET_BITS));
        }
        (cbit, bits)
    }

    fn get(b: &[u8], i: u64) -> bool {
        b[(i / 8) as usize] >> (i % 8) & 1 == 1
    }

    pub fn contains_hash(&self, h: u64) -> bool {
        if self.cap == 0 || self.buckets.is_empty() {
            return false;
        }
        let (c, bits) = self.positions(h);
        c.map_or(true, |c| Self::get(&self.cache, c)) && bits.iter().all(|&i| Self::get(&self.buckets, i))
    }

    pub fn insert_hash(&mut self, h: u64) -> Option<bool> {
        if self.contains_hash(h) {
            return Some(false);
        }
        if self.n >= self.cap || self.buckets.is_empty() {
            return None;
        }
        let (c, bits) = self.positions(h);
        if let Some(c) = c {
            self.cache[(c / 8) as usize] |= 1 << (c % 8);
        }
        for i in bits {
            self.buckets[(i / 8) as usize] |= 1 << (i % 8);
        }
        self.n += 1;
        Some(true)
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![2, self.opt, 0, 0, 0, 0, 0, 0];
        o.extend(self.cap.to_le_bytes());
        o.extend(self.fpp.to_le_bytes());
        o.extend(self.k.to_le_bytes());
        o.extend(self.n.to_le_bytes());
        o.extend((self.cache.len() as u64 * 8).to_le_bytes());
        o.extend(&self.cache);
        o.extend(self.n_buckets().to_le_bytes());
        o.extend(&self.buckets);
        o.extend(&self.data);
        o
    }
}

// ---------------------------------------------------------------- either format

#[derive(Clone, Debug, PartialEq)]
pub enum Ref {
    V1(RefV1),
    V2(RefV2),
}

impl Ref {
    /// all models a correct implementation may correspond to (one, save for float noise)
    pub fn candidates(version: u8, opt: u8, cap: u64, fpp: f64) -> Vec<Ref> {
        match version {
            1 => RefV1::geometry(cap, fpp)
                .into_iter()
                .map(|(m, k)| Ref::V1(RefV1::with_geometry(cap, fpp, m, k)))
                .collect(),
            _ => RefV2::geometry(cap, fpp, opt)
                .into_iter()
                .map(|g| Ref::V2(RefV2::with_geometry(cap, fpp, opt, g)))
                .collect(),
        }
    }
    pub fn contains(&self, v: &[u8]) -> bool {
        match self {
            Ref::V1(r) => r.contains(v),
            Ref::V2(r) => r.contains_hash(h1(v)),
        }
    }
    pub fn insert(&mut self, v: &[u8]) -> Option<bool> {
        match self {
            Ref::V1(r) => r.insert(v),
            Ref::V2(r) => r.insert_hash(h1(v)),
        }
    }
    pub fn set_data(&mut self, d: Vec<u8>) {
        match self {
            Ref::V1(r) => r.data = d,
            Ref::V2(r) => r.data = d,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Ref::V1(r) => r.bytes(),
            Ref::V2(r) => r.bytes(),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ref::V1(r) => r.n,
            Ref::V2(r) => r.n,
        }
    }
}

/// A serialized filter taken apart.
#[derive(Clone, Debug, PartialEq)]
pub struct Parsed {
    pub version: u8,
    pub opt: u8,
    pub cap: u64,
    pub fpp_bits: u64,
    pub k: u64,
    pub count: u64,
    /// number of bits of v1
    pub m: u64,
    pub cache: Vec<u8>,
    pub body: Vec<u8>,
    pub data: Vec<u8>,
}

pub fn parse(b: &[u8]) -> Result<Parsed, String> {
    let short = || format!("serialized filter too short: {} bytes", b.len());
    if b.len() < V1_HEADER {
        return Err(short());
    }
    match b[0] {
        1 => {
            let m = le64(b, 32);
            let len = (m.div_ceil(64) as usize).saturating_mul(8);
            if b.len() - V1_HEADER < len {
                return Err(short());
            }
            Ok(Parsed {
                version: 1,
                opt: b[1],
                cap: le64(b, 8),
                fpp_bits: le64(b, 16),
                k: le64(b, 24),
                m,
                count: le64(b, 40),
                cache: vec![],
                body: b[V1_HEADER..V1_HEADER + len].to_vec(),
                data: b[V1_HEADER + len..].to_vec(),
            })
        }
        2 => {
            let cbits = le64(b, 40) as usize;
            let clen = cbits.div_ceil(8);
            let at = V2_HEADER + clen;
            if b.len() < at.saturating_add(8) {
                return Err(short());
            }
            let blen = (le64(b, at) as usize).saturating_mul(BUCKET);
            if b.len() - at - 8 < blen {
                return Err(short());
            }
            Ok(Parsed {
                version: 2,
                opt: b[1],
                cap: le64(b, 8),
                fpp_bits: le64(b, 16),
                k: le64(b, 24),
                count: le64(b, 32),
                m: blen as u64 * 8,
                cache: b[V2_HEADER..at].to_vec(),
                body: b[at + 8..at + 8 + blen].to_vec(),
                data: b[at + 8 + blen..].to_vec(),
            })
        }
        v => Err(format!("unexpected version byte {v} in serialized filter")),
    }
}

impl Parsed {
    /// length of the part before the attached data
    pub fn fixed_len(&self) -> usize {
        match self.version {
            1 => V1_HEADER + self.body.len(),
            _ => V2_HEADER + 8 + self.cache.len() + self.body.len(),
        }
    }

    /// a bound for the estimate when partitions are saturated: as if each had a bit unset
    pub fn estimate_at_least(&self, body: &[u8]) -> f64 {
        let mut b = body.to_vec();
        let step = if self.version == 1 { b.len().max(1) } else { BUCKET };
        for c in b.chunks_mut(step) {
            let all = if self.version == 1 { self.m } else { BUCKET_BITS };
            let ones = c.iter().map(|x| x.count_ones() as u64).sum::<u64>();
            if ones == all {
                c[0] &= !1;
            }
        }
        self.estimate(&b).map_or(0.0, |(e, slack)| e - slack)
    }

    /// number of elements the given bits imply, and how far a rounded estimate may be from it;
    /// None when a partition is saturated (the estimate is infinite)
    pub fn estimate(&self, body: &[u8]) -> Option<(f64, f64)> {
        let ones = |b: &[u8]| b.iter().map(|x| x.count_ones() as u64).sum::<u64>();
        if self.version == 1 {
            let o = ones(body);
            if o >= self.m && self.m > 0 {
                return None;
            }
            if self.m == 0 {
                return Some((0.0, 0.0));
            }
            let e = -(self.m as f64) * (1.0 - o as f64 / self.m as f64).ln() / self.k as f64;
            return Some((e, 1.0 + e * 1e-6));
        }
        let mut sum = 0.0;
        let mut slack = 0.0;
        for b in body.chunks(BUCKET) {
            let o = ones(b);
            if o == BUCKET_BITS {
                return None;
            }
            let e = -(BUCKET_BITS as f64) * (1.0 - o as f64 / BUCKET_BITS as f64).ln() / self.k as f64;
            sum += e;
            if o > 0 {
                slack += 1.0;
            }
        }
        Some((sum, slack + sum * 1e-6 + 1e-6))
    }
}
