//! Malformed filter data.

use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::model::*;
use poppy_filters::{v1, v2, BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Valid { spec: Spec, set: KeySet, data: Blob },
    Bytes(Vec<u8>),
    Rand { len: usize, seed: u64, head: Vec<u8> },
}

impl Base {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Base::Valid { spec, set, data } => {
                // from the model: does not depend on the code under test
                let Some(mut r) = Ref::candidates(spec.version, spec.opt, spec.cap, spec.fpp).pop() else { return vec![] };
                for v in set.iter() {
                    r.insert(&v);
                }
                r.set_data(data.bytes());
                r.bytes()
            }
            Base::Bytes(b) => b.clone(),
            Base::Rand { len, seed, head } => {
                let mut b = head.clone();
                b.extend(gen_bytes(Style::Random, *len, *seed));
                b
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    /// a header field (8 byte word) gets a value; word 6 is the v2 bucket count
    Field { word: u8, value: u64 },
    /// the field is changed by a small amount
    Bump { word: u8, by: i64 },
    /// position in 1/65536 of the length
    Flip { at: u16, bit: u8 },
    HeadByte { at: u8, value: u8 },
    Cut { at: u16 },
    CutAt { at: u32 },
    /// keep the start up to near the end of the bits
    CutNearBits { by: i8 },
    Extend(Blob),
    Remove { at: u16, len: u16 },
    Insert { at: u16, bytes: Vec<u8> },
}

fn field_at(b: &[u8], word: u8) -> usize {
    if word % 7 == 6 && b.len() >= 48 && b[0] == 2 {
        48usize.saturating_add(le64(b, 40).div_ceil(8).min(1 << 40) as usize)
    } else {
        (word % 6) as usize * 8
    }
}

impl Change {
    fn apply(&self, b: &mut Vec<u8>) {
        let pos = |at: u16, len: usize| (at as usize * len) >> 16;
        match self {
            Change::Field { word, value } => {
                let at = field_at(b, *word);
                if at + 8 <= b.len() {
                    b[at..at + 8].copy_from_slice(&value.to_le_bytes());
                }
            }
            Change::Bump { word, by } => {
                let at = field_at(b, *word);
                if at + 8 <= b.len() {
                    let v = le64(b, at).wrapping_add_signed(*by);
                    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            Change::Flip { at, bit } => {
                let n = b.len();
                if n > 0 {
                    b[pos(*at, n)] ^= 1 << (bit % 8);
                }
            }
            Change::HeadByte { at, value } => {
                let at = *at as usize % 56;
                if at < b.len() {
                    b[at] = *value;
                }
            }
            Change::Cut { at } => b.truncate(pos(*at, b.len())),
            Change::CutAt { at } => b.truncate(*at as usize),
            Change::CutNearBits { by } => {
                if let Ok(p) = parse(b) {
                    b.truncate(p.fixed_len().saturating_add_signed(*by as isize));
                }
            }
            Change::Extend(x) => b.extend(x.bytes()),
            Change::Remove { at, len } => {
                let a = pos(*at, b.len());
                let e = (a + *len as usize).min(b.len());
                b.drain(a..e);
            }
            Change::Insert { at, bytes } => {
                let a = pos(*at, b.len());
                b.splice(a..a, bytes.iter().cloned());
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: Base,
    changes: Vec<Change>,
    probes: Vec<Key>,
}

/// announced size of header and bits, None if the header itself is incomplete or invalid
enum Head {
    /// why every loader must refuse it
    Bad(&'static str),
    /// number of bytes a full load needs at least
    Needs(u128),
}

fn head(b: &[u8]) -> Head {
    if b.len() < 8 {
        return Head::Bad("cut in the flags");
    }
    if b[0] != 1 && b[0] != 2 {
        return Head::Bad("unknown version");
    }
    if b[1] > 3 {
        return Head::Bad("unknown optimization level");
    }
    if b.len() < 48 {
        return Head::Bad("cut in the header");
    }
    if b[0] == 1 {
        return Head::Needs(48 + le64(b, 32).div_ceil(64) as u128 * 8);
    }
    let fpp = f64::from_bits(le64(b, 16));
    if !(fpp >= f64::MIN_POSITIVE && fpp <= 1.0) {
        return Head::Bad("probability out of range");
    }
    let at = 48 + le64(b, 40).div_ceil(8) as u128;
    if (b.len() as u128) < at + 8 {
        return Head::Bad("cut before the number of buckets");
    }
    Head::Needs(at + 8 + le64(b, at as usize) as u128 * BUCKET as u128)
}

/// every operation, on an accepted filter
fn exercise(f: &BloomFilter, b: &[u8], probes: &[Vec<u8>]) -> Verdict {
    // crafted numbers of hashes would take for ever
    let k = le64(b, 24);
    let usable = k <= 20_000;
    let _ = (f.version(), f.capacity(), f.fpp(), f.count_estimate(), f.is_full(), f.data().len());
    no_panic("size_in_bytes", || f.size_in_bytes())?;
    no_panic("write", || dump(f))?;
    let mut g = no_panic("clone", || f.clone())?;
    no_panic("has_same_params", || f.has_same_params(&g))?;
    no_panic("count_common_entries", || f.count_common_entries(&g).map_err(|e| e.to_string()))?.ok();
    match f {
        BloomFilter::V1(x) => {
            no_panic("v1 getters", || (x.n_bits(), x.n_hash_fn(), x.size_in_u64(), x.estimated_p()))?;
            no_panic("v1 counts", || (x.count_ones(), x.count_zeros()))?;
            no_panic("v1 bits", || x.bits().len())?;
        }
        BloomFilter::V2(x) => {
            no_panic("v2 counts", || (x.count_ones(), x.count_zeros()))?;
            no_panic("intersection", || x.clone().intersection(x.clone()).is_ok())?;
        }
    }
    if usable {
        for (i, v) in probes.iter().enumerate() {
            no_panic("contains", || contains_via(f, v, i as u8))?;
            no_panic("insert", || insert_via(&mut g, v, i as u8).is_ok())?;
            no_panic("contains after insert", || contains_via(&g, v, i as u8))?;
        }
        no_panic("fill", || g.fill(probes.to_vec()).is_ok())?;
    }
    let mut u = g.clone();
    no_panic("union", || u.union_merge(f).is_ok())?;
    no_panic("union with itself", || {
        let c = u.clone();
        u.union_merge(&c).is_ok()
    })?;
    no_panic("common entries", || u.count_common_entries(&g).is_ok())?;
    if usable {
        for (i, v) in probes.iter().enumerate() {
            no_panic("insert after union", || insert_via(&mut u, v, i as u8).is_ok())?;
        }
    }
    if let (BloomFilter::V2(u), BloomFilter::V2(f)) = (&mut u, f) {
        no_panic("intersection_merge", || u.intersection_merge(f).is_ok())?;
    }
    no_panic("clear", || u.clear())?;
    if usable {
        for (i, v) in probes.iter().enumerate() {
            no_panic("insert after clear", || insert_via(&mut u, v, i as u8).is_ok())?;
        }
    }
    no_panic("write at the end", || dump(&u))?;
    // against a filter with other parameters
    if let Ok(o) = BloomFilter::with_capacity(100, 0.1) {
        no_panic("union with another filter", || u.union_merge(&o).is_ok())?;
        no_panic("common entries with another filter", || o.count_common_entries(&u).is_ok())?;
    }
    Ok(())
}

type Loader = (&'static str, bool, fn(&[u8]) -> Result<BloomFilter, Error>);
const LOADERS: [Loader; 4] = [
    ("generic load", false, |b| BloomFilter::from_reader(Cursor::new(b))),
    ("generic partial load", true, |b| BloomFilter::partial_from_reader(Cursor::new(b))),
    ("v1 load", false, |b| v1::BloomFilter::from_reader(Cursor::new(b)).map(BloomFilter::V1)),
    ("v2 load", false, |b| v2::BloomFilter::from_reader(Cursor::new(b)).map(BloomFilter::V2)),
];

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let base = c.base.bytes();
    let mut b = base.clone();
    for m in &c.changes {
        m.apply(&mut b);
    }
    let mut probes: Vec<Vec<u8>> = c.probes.iter().map(|k| k.bytes()).collect();
    probes.extend((0..12u64).map(|i| gen_bytes(Style::Random, 9 + i as usize, i)));
    let h = head(&b);
    for (name, partial, f) in LOADERS {
        let r = no_panic(name, || f(&b))?;
        let must_fail = match &h {
            Head::Bad(why) => Some(*why),
            _ if name.starts_with("v1") && b[0] != 1 => Some("other version"),
            _ if name.starts_with("v2") && b[0] != 2 => Some("other version"),
            Head::Needs(n) if !partial && *n > b.len() as u128 => Some("cut in the bits"),
            _ => None,
        };
        match (&r, must_fail) {
            (Ok(_), Some(why)) => return Err(format!("{name} accepted data that is wrong: {why}")),
            (Err(_), Some(why)) => ctx.label(format!("refused: {why}")),
            (Err(_), None) => ctx.label("refused, other reason"),
            (Ok(_), None) => ctx.label(format!("accepted by {name}")),
        }
        if let Ok(x) = r {
            exercise(&x, &b, &probes).map_err(|e| format!("after {name}: {e}"))?;
        }
    }
    ctx.nontrivial = b != base && matches!(h, Head::Needs(_)) || matches!(h, Head::Bad(_)) && b.len() >= 8;
    Ok(())
}

fn value() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => prop::sample::select(vec![
            0u64, 1, 2, 3, 7, 8, 63, 64, 65, 127, 4095, 4096, 32767, 32768, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX as u64,
            1 << 32, 1 << 35, 1 << 38, 1 << 45, 1 << 51, (1 << 52) - 1, 1 << 52, 1 << 53, (1 << 53) + 1, 1 << 60, i64::MAX as u64, 1 << 63,
            u64::MAX - 7, u64::MAX - 1, u64::MAX,
        ]),
        2 => (0u32..64, -2i64..=2).prop_map(|(e, d)| (1u64 << e).wrapping_add_signed(d)),
        1 => any::<u64>(),
        1 => 0u64..5000,
        1 => prop::sample::select(vec![0.0f64, -0.0, 1.0, 0.5, 1e-300, -0.5, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324]).prop_map(f64::to_bits),
        1 => any::<f64>().prop_map(f64::to_bits),
    ]
    .boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        6 => (0u8..7, value()).prop_map(|(word, value)| Change::Field { word, value }),
        2 => (0u8..7, -9i64..=9).prop_map(|(word, by)| Change::Bump { word, by }),
        2 => (any::<u16>(), 0u8..8).prop_map(|(at, bit)| Change::Flip { at, bit }),
        3 => (0u8..56, any::<u8>()).prop_map(|(at, value)| Change::HeadByte { at, value }),
        1 => any::<u16>().prop_map(|at| Change::Cut { at }),
        1 => (0u32..120).prop_map(|at| Change::CutAt { at }),
        2 => (-9i8..=9).prop_map(|by| Change::CutNearBits { by }),
        1 => blob().prop_map(Change::Extend),
        1 => (any::<u16>(), 0u16..10_000).prop_map(|(at, len)| Change::Remove { at, len }),
        1 => (any::<u16>(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(at, bytes)| Change::Insert { at, bytes }),
    ]
    .boxed()
}

fn base(max: f64) -> BoxedStrategy<Base> {
    let valid = (prop_oneof![1 => spec(max), 1 => small_spec().prop_map(|s| s.bounded(20_000.0))], keyset(60), blob())
        .prop_map(|(spec, set, data)| Base::Valid { spec, set, data });
    let heads = prop::sample::select(vec![vec![], vec![1, 0, 0, 0, 0, 0, 0, 0], vec![2, 0, 0, 0, 0, 0, 0, 0], vec![2, 3, 0, 0, 0, 0, 0, 0], vec![1], vec![2]]);
    prop_oneof![
        8 => valid,
        1 => prop::collection::vec(any::<u8>(), 0..120).prop_map(Base::Bytes),
        1 => (0usize..9000, any::<u64>(), heads).prop_map(|(len, seed, head)| Base::Rand { len, seed, head }),
    ]
    .boxed()
}

fn case(max: f64) -> BoxedStrategy<Case> {
    (base(max), prop::collection::vec(change(), 0..4), prop::collection::vec(key_max(300), 0..4))
        .prop_map(|(base, changes, probes)| Case { base, changes, probes })
        .boxed()
}

/// A complete header whose every field is extreme, followed by some bits.
fn crafted() -> BoxedStrategy<Case> {
    (1u8..=2, 0u8..=3, prop::collection::vec(value(), 5), value(), 0usize..9000, any::<u64>(), any::<bool>())
        .prop_map(|(version, opt, mut f, nb, len, seed, small)| {
            if small || f[1] == 0 {
                f[1] = 0.01f64.to_bits();
            }
            if version == 2 && small {
                f[4] %= 64;
            }
            let mut b = vec![version, opt, 0, 0, 0, 0, 0, 0];
            for x in f {
                b.extend(x.to_le_bytes());
            }
            if version == 2 {
                b.extend(vec![0x5a; (le64(&b, 40).div_ceil(8)).min(64) as usize]);
                b.extend(if small { nb % 4 } else { nb }.to_le_bytes());
            }
            Case { base: Base::Rand { len, seed, head: b }, changes: vec![], probes: vec![] }
        })
        .boxed()
}

/// every prefix of a valid file, small files only
fn check_prefixes(c: &(Spec, KeySet), ctx: &mut Ctx) -> Verdict {
    let b = Base::Valid { spec: c.0.clone(), set: c.1.clone(), data: Blob::Lit(b"data".to_vec()) }.bytes();
    let n = b.len();
    let fixed = parse(&b)?.fixed_len();
    for len in (0..fixed).filter(|l| *l < 400 || *l + 400 > fixed || l % 97 == 0) {
        if BloomFilter::from_reader(Cursor::new(&b[..len])).is_ok() {
            return Err(format!("a file cut to {len} of {n} bytes (bits end at {fixed}) was loaded"));
        }
        no_panic("partial load", || BloomFilter::partial_from_reader(Cursor::new(&b[..len])).is_ok())?;
        ctx.count("prefixes", 1);
    }
    for len in fixed..=n {
        if let Err(e) = BloomFilter::from_reader(Cursor::new(&b[..len])) {
            // not this property's business, but the prefixes above would prove nothing
            ctx.label(format!("complete bits refused: {e}"));
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "files made by the reference model (or raw bytes) with generated changes to header fields, bytes and length, loaded through all four interfaces in a process limited to 4 GiB; what must be refused is computed from the bytes, what is accepted is exercised with every operation under a panic guard. Non-trivial: the data has a complete header different from the base file, or is refused for a stated reason after at least eight bytes",
        suites: || {
            vec![
                suite("mutated", 60_000, 1_500_000, |t| if t == Tier::Quick { case(20_000.0) } else { case(60_000.0) }, check),
                suite("crafted headers", 60_000, 1_500_000, |_| crafted(), check),
                suite("prefixes", 400, 6_000, |_| (small_spec().prop_map(|s| s.bounded(9000.0)), keyset(20)).boxed(), check_prefixes),
            ]
        },
        processes: false,
    }
}
