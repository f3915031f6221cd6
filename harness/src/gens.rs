//! Generators shared by the suites.

use crate::model::f64s;
use poppy_filters::{v1, v2, BloomFilter, OptLevel, Params};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- values

/// how synthetic values look like
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Style {
    Random,
    Ascii,
    Zeros,
    Ones,
    /// counter in the first 8 bytes (little endian), rest zero
    IntLe,
    /// one byte repeated
    Repeat,
    Utf8,
    /// text that differs from its neighbours (seeds that follow each other) in a few characters only
    Near,
}

/// A value: small ones are written out (and shrink well), large ones are described.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Key {
    Lit(Vec<u8>),
    Gen { style: Style, len: usize, seed: u64 },
}

pub fn gen_bytes(style: Style, len: usize, seed: u64) -> Vec<u8> {
    match style {
        Style::Zeros => vec![0; len],
        Style::Ones => vec![0xff; len],
        Style::Repeat => vec![seed as u8; len],
        Style::IntLe => {
            let mut v = vec![0; len];
            let b = seed.to_le_bytes();
            let n = len.min(8);
            v[..n].copy_from_slice(&b[..n]);
            v
        }
        Style::Random | Style::Ascii => {
            let mut v = Vec::with_capacity(len + 8);
            let mut s = mix(seed ^ (len as u64) << 40);
            while v.len() < len {
                s = mix(s);
                v.extend_from_slice(&s.to_le_bytes());
            }
            v.truncate(len);
            if style == Style::Ascii {
                const A: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -";
                v.iter_mut().for_each(|b| *b = A[(*b & 63) as usize]);
            }
            v
        }
        Style::Near => {
            let family = mix(seed >> 14);
            let mut v = gen_bytes(Style::Ascii, len, family);
            let n = format!("{:04x}", seed & 0x3fff);
            let room = len.saturating_sub(n.len());
            // at the end, at the beginning or in between
            let at = match family % 3 {
                0 => room,
                1 => 0,
                _ => (family >> 8) as usize % (room + 1),
            };
            // the last digits if there is no room for all
            for (i, b) in n.bytes().rev().enumerate().take(len) {
                v[(at + n.len()).min(len) - 1 - i] = b;
            }
            v
        }
        Style::Utf8 => {
            let mut s = String::new();
            let mut x = mix(seed);
            while s.len() < len {
                x = mix(x);
                let c = match x % 5 {
                    0 => 'é',
                    1 => '漢',
                    2 => '😀',
                    3 => (b'a' + (x >> 8) as u8 % 26) as char,
                    _ => ' ',
                };
                if s.len() + c.len_utf8() > len {
                    s.push('z');
                } else {
                    s.push(c);
                }
            }
            s.into_bytes()
        }
    }
}

impl Key {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Lit(v) => v.clone(),
            Key::Gen { style, len, seed } => gen_bytes(*style, *len, *seed),
        }
    }
}

pub fn style() -> BoxedStrategy<Style> {
    prop_oneof![
        6 => Just(Style::Random),
        4 => Just(Style::Ascii),
        1 => Just(Style::Zeros),
        1 => Just(Style::Ones),
        2 => Just(Style::IntLe),
        1 => Just(Style::Repeat),
        2 => Just(Style::Utf8),
        2 => Just(Style::Near),
    ]
    .boxed()
}

/// lengths with emphasis on boundaries of hash blocks and buffers
pub fn length(max: usize) -> BoxedStrategy<usize> {
    let around = |c: usize| (c.saturating_sub(2)..=c + 2).boxed();
    prop_oneof![
        10 => 0usize..=16,
        14 => 0usize..=300,
        2 => around(8),
        3 => around(32),
        2 => around(48),
        2 => around(64),
        1 => around(128),
        1 => around(256),
        1 => around(512),
        1 => around(1024),
        1 => around(4096),
        1 => around(8192),
        1 => 300usize..5000,
        1 => prop_oneof![
            6 => around(16384),
            6 => around(32768),
            6 => around(65536),
            6 => 5000usize..200_000,
            1 => around(1 << 20),
        ],
    ]
    .prop_map(move |l| l.min(max))
    .boxed()
}

/// lengths from one to about fifty million, also around powers of two
pub fn big_length() -> BoxedStrategy<usize> {
    prop_oneof![3 => (20.0f64..=25.6).prop_map(|e| e.exp2() as usize), 2 => (20u32..=25, -2i64..=2).prop_map(|(e, d)| ((1i64 << e) + d) as usize)].boxed()
}

pub fn big_key() -> BoxedStrategy<Key> {
    (style(), big_length(), any::<u64>()).prop_map(|(style, len, seed)| Key::Gen { style, len, seed }).boxed()
}

pub fn big_blob() -> BoxedStrategy<Blob> {
    (big_length(), any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }).boxed()
}

pub fn key_max(max: usize) -> BoxedStrategy<Key> {
    prop_oneof![
        3 => prop::collection::vec(any::<u8>(), 0..=12).prop_map(Key::Lit),
        // few distinct short values, so that histories repeat themselves
        3 => prop::collection::vec(0u8..3, 0..=3).prop_map(Key::Lit),
        1 => prop::collection::vec(any::<u8>(), 0..=80).prop_map(Key::Lit),
        // a pool of longer ones, for the same reason
        4 => (prop::sample::select(vec![5usize, 9, 17, 33, 70]), 0u64..4, prop::bool::weighted(0.25))
            .prop_map(|(len, seed, near)| Key::Gen { style: if near { Style::Near } else { Style::Ascii }, len, seed }),
        6 => (style(), length(max), prop_oneof![0u64..16, any::<u64>()])
            .prop_map(|(style, len, seed)| Key::Gen { style, len, seed }),
    ]
    .boxed()
}

pub fn key() -> BoxedStrategy<Key> {
    key_max(1_100_000)
}

/// Many values at once.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct KeySet {
    pub style: Style,
    /// lengths cycle through len..len+spread
    pub len: usize,
    pub spread: usize,
    pub seed: u64,
    pub n: usize,
}

impl KeySet {
    pub fn get(&self, i: usize) -> Vec<u8> {
        let len = self.len + if self.spread > 0 { i % self.spread } else { 0 };
        let seed = match self.style {
            Style::IntLe => self.seed.wrapping_add(i as u64),
            _ => mix(self.seed).wrapping_add(i as u64),
        };
        gen_bytes(self.style, len, seed)
    }
    pub fn iter(&self) -> impl Iterator<Item = Vec<u8>> + '_ {
        (0..self.n).map(move |i| self.get(i))
    }
}

pub fn keyset(max: usize) -> BoxedStrategy<KeySet> {
    let free = (
        prop_oneof![4 => Just(Style::Random), 3 => Just(Style::Ascii), 2 => Just(Style::IntLe), 1 => Just(Style::Utf8), 2 => Just(Style::Near)],
        prop_oneof![3 => 4usize..=40, 1 => Just(8), 1 => Just(32), 1 => 0usize..=200],
        prop_oneof![2 => Just(0usize), 1 => 1usize..=70],
        prop_oneof![0u64..4, any::<u64>()],
        prop_oneof![3 => 0..=max.min(30), 2 => 0..=max.min(300), 1 => 0..=max],
    )
        .prop_map(|(style, len, spread, seed, n)| KeySet { style, len, spread, seed, n });
    // sets that overlap with each other
    let pool = (prop::sample::select(vec![Style::Ascii, Style::Random]), 0u64..2, 0..=max.min(400))
        .prop_map(|(style, seed, n)| KeySet { style, len: 12, spread: 0, seed, n });
    prop_oneof![3 => free, 1 => pool].boxed()
}

// ---------------------------------------------------------------- attached data

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Blob {
    Lit(Vec<u8>),
    Gen { len: usize, seed: u64 },
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Lit(v) => v.clone(),
            Blob::Gen { len, seed } => gen_bytes(Style::Random, *len, *seed),
        }
    }
}

pub fn blob() -> BoxedStrategy<Blob> {
    prop_oneof![
        2 => Just(Blob::Lit(vec![])),
        4 => prop::collection::vec(any::<u8>(), 0..=40).prop_map(Blob::Lit),
        1 => Just(Blob::Lit(b"\n".to_vec())),
        4 => (length(2_000_000), any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- filters

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub version: u8,
    pub opt: u8,
    pub cap: u64,
    #[serde(with = "f64s")]
    pub fpp: f64,
}

pub fn opt_level(o: u8) -> OptLevel {
    OptLevel::try_from(o).unwrap_or(OptLevel::None)
}

impl Spec {
    pub fn params(&self) -> Params {
        Params::new(self.cap as usize, self.fpp)
            .version(self.version)
            .opt(opt_level(self.opt))
    }

    pub fn create(&self) -> Result<BloomFilter, String> {
        // the ways to create a filter take turns, depending on what is asked for
        let (p, cap) = (self.params(), self.cap as usize);
        let way = mix(self.cap ^ self.fpp.to_bits() ^ ((self.version as u64) << 8 | self.opt as u64)) % 8;
        let f = match (way, self.version, self.opt) {
            (0, 1, _) => p.try_into_v1().map(BloomFilter::V1),
            (0, 2, _) => p.try_into_v2().map(BloomFilter::V2),
            (1, 1, _) => v1::BloomFilter::try_from(p).map(BloomFilter::V1),
            (1, 2, _) => v2::BloomFilter::try_from(p).map(BloomFilter::V2),
            (2, 1, 0) => v1::BloomFilter::with_capacity(self.cap, self.fpp).map(BloomFilter::V1),
            (2, 2, 0) => v2::BloomFilter::with_capacity(self.cap, self.fpp).map(BloomFilter::V2),
            (3, _, 0) => BloomFilter::with_version_capacity(self.version, cap, self.fpp),
            (4, 2, 0) => BloomFilter::with_capacity(cap, self.fpp),
            (5, ..) => BloomFilter::with_version_capacity_opt(self.version, cap, self.fpp, opt_level(self.opt)),
            _ => BloomFilter::try_from(p),
        };
        f.map_err(|e| format!("creation of {self:?} failed: {e}"))
    }

    /// how many values a bucket is meant for
    pub fn per_bucket(&self) -> u64 {
        (32768.0 * 0.4804530139182014 / -self.fpp.ln()).floor().max(1.0) as u64
    }

    /// approximate size of the bits, in bytes
    pub fn approx_size(&self) -> f64 {
        let bits = self.cap as f64 * -self.fpp.ln() / 0.4804530139182014;
        let b = bits / 8.0;
        if self.version == 1 {
            b + 8.0
        } else {
            let nb = (self.cap as f64 / self.per_bucket() as f64).ceil();
            let nb = if self.opt == 2 { nb * 2.0 } else { nb };
            nb * 4096.0 + if self.opt >= 2 { self.cap as f64 / 4.0 } else { 0.0 }
        }
    }

    /// number of hash functions, roughly
    pub fn approx_k(&self) -> f64 {
        -self.fpp.log2() + 1.0
    }

    /// shrinks the capacity until the bits fit in max bytes
    pub fn bounded(mut self, max: f64) -> Self {
        while self.approx_size() > max && self.cap > 1 {
            self.cap = (self.cap as f64 * 0.9 * (max / self.approx_size()).max(0.05)) as u64;
        }
        self
    }
}

pub fn version_opt() -> BoxedStrategy<(u8, u8)> {
    prop_oneof![
        4 => Just((1u8, 0u8)),
        // v1 takes a level and does nothing with it
        1 => (1u8..=3).prop_map(|o| (1u8, o)),
        3 => Just((2u8, 0u8)),
        2 => Just((2u8, 1u8)),
        4 => Just((2u8, 2u8)),
        4 => Just((2u8, 3u8)),
    ]
    .boxed()
}

pub fn v2_opt() -> BoxedStrategy<(u8, u8)> {
    (0u8..=3).prop_map(|o| (2, o)).boxed()
}

pub fn fpp() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => prop::sample::select(vec![0.5, 0.1, 0.01, 0.001, 0.0001]),
        3 => prop::sample::select(vec![1.0, 0.999999, 0.99, 0.9, 0.75, 0.618, 0.25, 1e-5, 1e-6, 1e-7, 1e-9, 1e-12, 1e-15]),
        1 => prop::sample::select(vec![1e-18, 1e-30, 1e-50, 1e-100, 1e-300, f64::MIN_POSITIVE]),
        3 => (0.0f64..=12.0).prop_map(|e| 10f64.powf(-e)),
        2 => 0.0001f64..1.0,
    ]
    .boxed()
}

pub fn capacity() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => Just(0u64),
        2 => Just(1u64),
        4 => 1u64..=20,
        4 => (0u32..=18, -1i64..=1).prop_map(|(e, d)| ((1i64 << e) + d).max(1) as u64),
        6 => 1u64..=5000,
        4 => (0.0f64..=6.0).prop_map(|e| 10f64.powf(e) as u64),
    ]
    .boxed()
}

pub fn spec_with(vo: BoxedStrategy<(u8, u8)>, max_bytes: f64) -> BoxedStrategy<Spec> {
    let class = prop_oneof![12 => Just(1.0), 4 => Just(0.2), 1 => Just(10.0)];
    // what fits exactly, and one more or less
    let exact = prop_oneof![9 => Just(None), 1 => (-1i64..=1).prop_map(Some)];
    (vo, capacity(), fpp(), class, exact)
        .prop_map(move |((version, opt), cap, fpp, c, exact)| {
            let mut s = Spec { version, opt, cap, fpp }.bounded(max_bytes * c);
            let per = s.per_bucket();
            if let (Some(d), true) = (exact, s.cap >= per) {
                s.cap = (s.cap / per * per).saturating_add_signed(d);
            }
            s
        })
        .boxed()
}

/// any filter whose bits take at most about max_bytes (now and then ten times as much)
pub fn spec(max_bytes: f64) -> BoxedStrategy<Spec> {
    spec_with(version_opt(), max_bytes)
}

/// filters that are easily filled up
pub fn small_spec() -> BoxedStrategy<Spec> {
    (
        version_opt(),
        prop_oneof![1 => Just(0u64), 3 => 1u64..=4, 4 => 1u64..=40, 2 => 1u64..=300],
        fpp(),
    )
        .prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp }.bounded(262144.0))
        .boxed()
}

// ---------------------------------------------------------------- access to filters

pub fn set_data(f: &mut BloomFilter, d: Vec<u8>) {
    match f {
        BloomFilter::V1(b) => b.data = d,
        BloomFilter::V2(b) => b.data = d,
    }
}

pub fn dump(f: &BloomFilter) -> Vec<u8> {
    let mut v = Vec::new();
    f.write(&mut v).expect("writing to memory failed");
    v
}

/// loads with the reader for either version or with that of the version, depending on the bytes
pub fn load_from<R: std::io::Read + std::io::Seek>(b: &[u8], r: R) -> Result<BloomFilter, String> {
    let h = b.iter().take(64).fold(b.len() as u64, |h, &x| mix(h ^ x as u64));
    match (h % 3, b.first()) {
        (0, Some(1)) => v1::BloomFilter::from_reader(r).map(BloomFilter::V1),
        (0, Some(2)) => v2::BloomFilter::from_reader(r).map(BloomFilter::V2),
        _ => BloomFilter::from_reader(r),
    }
    .map_err(|e| format!("loading a saved filter failed: {e}"))
}

pub fn load(b: &[u8]) -> Result<BloomFilter, String> {
    load_from(b, std::io::Cursor::new(b))
}

/// clears through the type for either version or that of the version
pub fn clear(f: &mut BloomFilter) {
    match f {
        BloomFilter::V1(b) if b.count_estimate() % 3 == 0 => b.clear(),
        BloomFilter::V2(b) if b.count_estimate() % 3 == 0 => b.clear(),
        f => f.clear(),
    }
}

/// the same filter with another count, as a union or another program leaves it in a file
pub fn with_count(f: &BloomFilter, n: u64) -> Result<BloomFilter, String> {
    let mut d = dump(f);
    let at = if f.version() == 1 { 40 } else { 32 };
    d[at..at + 8].copy_from_slice(&n.to_le_bytes());
    load(&d)
}

/// counts around powers of two and the limits
pub fn any_count() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..500,
        4 => (8u32..64, -3i64..=200).prop_map(|(e, d)| (1u64 << e).saturating_add_signed(d)),
        1 => (0u64..3).prop_map(|d| u64::MAX - d),
        1 => any::<u64>(),
    ]
    .boxed()
}

/// the ways to pass the same bytes to an insertion
pub const VIAS: u8 = 8;

pub fn insert_via(f: &mut BloomFilter, v: &[u8], via: u8) -> Result<bool, poppy_filters::Error> {
    match (via % VIAS, f) {
        (0, f) => f.insert_bytes(v),
        (1, f) => f.insert_bytes(v.to_vec()),
        (2, BloomFilter::V1(b)) => b.insert_bytes(v),
        (2, BloomFilter::V2(b)) => b.insert_bytes(v),
        (3, BloomFilter::V2(b)) => b.insert(&v),
        (4, BloomFilter::V2(b)) => b.insert(&v.to_vec()),
        (5, BloomFilter::V2(b)) => {
            let it = poppy_filters::v2::BloomFilter::build_index_iter(&v);
            b.insert_iter(it)
        }
        (6, BloomFilter::V2(b)) => match std::str::from_utf8(v) {
            Ok(s) => b.insert(&s),
            Err(_) => b.insert(&v),
        },
        (7, BloomFilter::V2(b)) => match std::str::from_utf8(v) {
            Ok(s) => b.insert(&s.to_string()),
            Err(_) => b.insert(&v),
        },
        (_, f) => f.insert_bytes(v),
    }
}

pub fn contains_via(f: &BloomFilter, v: &[u8], via: u8) -> bool {
    match (via % VIAS, f) {
        (0, f) => f.contains_bytes(v),
        (1, f) => f.contains_bytes(v.to_vec()),
        (2, BloomFilter::V1(b)) => b.contains_bytes(v),
        (2, BloomFilter::V2(b)) => b.contains_bytes(v),
        (3, BloomFilter::V2(b)) => b.contains(&v),
        (4, BloomFilter::V2(b)) => b.contains(&v.to_vec()),
        (5, BloomFilter::V2(b)) => {
            let it = poppy_filters::v2::BloomFilter::build_index_iter(&v);
            b.contains_iter(it).expect("prepared index refused")
        }
        (6, BloomFilter::V2(b)) => match std::str::from_utf8(v) {
            Ok(s) => b.contains(&s),
            Err(_) => b.contains(&v),
        },
        (7, BloomFilter::V2(b)) => match std::str::from_utf8(v) {
            Ok(s) => b.contains(&s.to_string()),
            Err(_) => b.contains(&v),
        },
        (_, f) => f.contains_bytes(v),
    }
}

pub fn short(v: &[u8]) -> String {
    if v.len() <= 24 {
        format!("{v:02x?}")
    } else {
        format!("{:02x?}… ({} bytes)", &v[..16], v.len())
    }
}
