//! False positive rate of v2 filters.

use super::c15::Record;
use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::{RefV2, BUCKET_BITS};
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Text,
    HexDigest,
    Digest,
    LongBinary,
    Url,
    Counter,
    TypedInt,
    TypedSmall,
    TypedWide,
    TypedOption,
    TypedRecord,
    Mutated,
    ShortDigits,
    ShortRandom,
    /// long values with a small difference at the beginning, in the middle or at the end
    LongAlike,
}

/// the i-th value; distinct i give distinct values, none with trailing zeros below nine bytes
fn value(kind: Kind, seed: u64, i: u64) -> Vec<u8> {
    let r = mix(seed ^ mix(i));
    match kind {
        Kind::Text => {
            let mut v = gen_bytes(Style::Ascii, 5 + (r % 16) as usize, r);
            v.push(b'_');
            let mut n = i;
            for _ in 0..5 {
                v.push(b'a' + (n % 26) as u8);
                n /= 26;
            }
            v
        }
        Kind::HexDigest => {
            let mut s = String::new();
            for j in 0..4 {
                s.push_str(&format!("{:016x}", mix(r.wrapping_add(j))));
            }
            let l = [32, 40, 64][(seed % 3) as usize];
            s.truncate(l);
            s.into_bytes()
        }
        Kind::Digest => gen_bytes(Style::Random, [16, 20, 32][(seed % 3) as usize], r),
        Kind::LongBinary => {
            let mut v = gen_bytes(Style::Random, 100 + (r % 300) as usize, r);
            let at = (r >> 32) as usize % (v.len() - 8);
            v[at..at + 8].copy_from_slice(&i.to_le_bytes());
            v
        }
        Kind::Url => format!("https://{}.example.com/path/{}.html?id={i}", seed % 10, r % 7).into_bytes(),
        Kind::Counter => format!("entry-{:06}", i).into_bytes(),
        Kind::TypedInt | Kind::TypedSmall | Kind::TypedWide | Kind::TypedOption | Kind::TypedRecord => i.to_le_bytes().to_vec(),
        Kind::ShortDigits => format!("{:07}", i).into_bytes(),
        // mix is a bijection; a non-zero last byte keeps clear of zero padding
        Kind::ShortRandom => {
            let mut v = mix(seed.wrapping_add(i)).to_le_bytes().to_vec();
            v[7] |= 1;
            v
        }
        Kind::LongAlike => {
            let mut v = gen_bytes(Style::Random, [300, 600, 1100, 2100, 4200, 5000, 9000][(seed % 7) as usize], seed);
            let at = [0, v.len() / 4, v.len() / 2, v.len() - 8][(seed / 7 % 4) as usize];
            v[at..at + 8].copy_from_slice(&r.to_le_bytes());
            v
        }
        Kind::Mutated => gen_bytes(Style::Ascii, 9 + (i % 40) as usize, mix(seed ^ i)),
    }
}

fn is_typed(k: Kind) -> bool {
    matches!(k, Kind::TypedInt | Kind::TypedSmall | Kind::TypedWide | Kind::TypedOption | Kind::TypedRecord)
}

/// how the filter gets its content
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    Direct,
    Bulk,
    Union,
    Reloaded,
    Refilled,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    kind: Kind,
    how: How,
    seed: u64,
    /// inserted values, in percent of the capacity
    fill: u8,
    max_queries: u64,
}

/// the i-th value of a kind that is not a byte string
macro_rules! typed {
    ($kind:expr, $seed:expr, $i:expr, $v:ident => $e:expr, $other:expr) => {
        match $kind {
            Kind::TypedInt => { let $v = &$i; $e }
            Kind::TypedSmall => { let $v = &(-($i as i32)); $e }
            // all the difference in the upper half
            Kind::TypedWide => { let $v = &((($i as u128) << 64) | 7); $e }
            Kind::TypedOption => { let $v = &Some($i as u32); $e }
            Kind::TypedRecord => {
                let name = format!("entry {}", $seed % 10);
                let $v = &Record { id: $i, name, tags: vec![1, 2], parent: None };
                $e
            }
            _ => $other,
        }
    };
}

fn insert(f: &mut BloomFilter, kind: Kind, seed: u64, i: u64) {
    let _ = match (kind, f) {
        (k, BloomFilter::V2(b)) => typed!(k, seed, i, v => b.insert(v), b.insert_bytes(value(kind, seed, i))),
        (_, f) => f.insert_bytes(value(kind, seed, i)),
    };
}

fn contains(f: &BloomFilter, kind: Kind, seed: u64, i: u64, n: u64) -> bool {
    match (kind, f) {
        (Kind::Mutated, f) => {
            // an inserted value with every byte changed
            let mut v = value(kind, seed, i % n.max(1));
            let mut r = mix(i ^ 0x5555);
            for b in v.iter_mut() {
                r = mix(r);
                *b ^= 1 + (r % 255) as u8;
            }
            // letters are below 0x80: one high bit makes it certainly absent
            v[(r % 8) as usize] |= 0x80;
            f.contains_bytes(v)
        }
        (k, BloomFilter::V2(b)) => typed!(k, seed, i, v => b.contains(v), b.contains_bytes(value(kind, seed, i))),
        (_, f) => f.contains_bytes(value(kind, seed, i)),
    }
}

fn build(c: &Case, seed: u64, n: u64) -> Option<BloomFilter> {
    let mut f = c.spec.create().ok()?;
    match c.how {
        How::Direct => (0..n).for_each(|i| insert(&mut f, c.kind, seed, i)),
        How::Bulk if !is_typed(c.kind) => {
            let _ = f.fill((0..n).map(|i| value(c.kind, seed, i)).collect::<Vec<_>>());
        }
        How::Union => {
            let mut g = c.spec.create().ok()?;
            (0..n).for_each(|i| insert(if i % 3 == 0 { &mut g } else { &mut f }, c.kind, seed, i));
            f.union_merge(&g).ok()?;
        }
        How::Refilled => {
            (0..n).for_each(|i| insert(&mut f, Kind::Digest, !seed, i));
            clear(&mut f);
            (0..n).for_each(|i| insert(&mut f, c.kind, seed, i));
        }
        _ => {
            (0..n / 2).for_each(|i| insert(&mut f, c.kind, seed, i));
            f = load(&dump(&f)).ok()?;
            // repeated insertions change nothing
            (n / 4..n).for_each(|i| insert(&mut f, c.kind, seed, i));
            f = load(&dump(&f)).ok()?;
        }
    }
    Some(f)
}

/// The rate the format delivers by construction where that is (as known) above the requested one.
/// There a filter may not be worse than that; elsewhere the requested rate counts.
fn known_rate(s: &Spec) -> f64 {
    let limit = if s.opt < 2 { 1e-5 } else { 0.005 };
    if s.fpp >= limit || s.cap == 0 {
        return 0.0;
    }
    let (k, cache, nb) = RefV2::geometry(s.cap, s.fpp, s.opt)[0];
    let load = s.cap as f64 / nb as f64;
    // buckets are not equally loaded
    let mut rate = 0.0;
    let mut weight = 0.0;
    for z in -40..=40 {
        let z = z as f64 / 10.0;
        let w = (-z * z / 2.0f64).exp();
        let l = (load + z * load.sqrt()).max(0.0);
        rate += w * ((1.0 - (-(k as f64) * l / BUCKET_BITS as f64).exp()).powf(k as f64) + l / (1u64 << 30) as f64);
        weight += w;
    }
    let hit = if cache > 0 { 1.0 - (-(s.cap as f64) / (cache as f64 * 8.0)).exp() } else { 1.0 };
    rate / weight * hit * 1.25
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    ctx.label(format!("kind {:?}", c.kind));
    ctx.label(format!("how {:?}", c.how));
    let p = c.spec.fpp;
    let n = (c.spec.cap * c.fill as u64).div_ceil(100).min(c.spec.cap);
    // small filters are repeated: the rate is an average over filters as well as over queries
    let reps = if c.spec.cap >= 20_000 { 1 } else { (20_000 / c.spec.cap.max(100)).clamp(4, 60) };
    let queries = ((3000.0 / p) as u64).clamp(2_000, c.max_queries);
    let per = (queries / reps).max(200);
    let mut fps = vec![];
    for r in 0..reps {
        let seed = mix(c.seed.wrapping_add(r));
        let Some(f) = build(c, seed, n) else { return Ok(()) };
        let mut fp = 0u64;
        // the counter-like kinds need unused numbers, far enough for all of them
        let base = c.spec.cap * 2 + 1000 * (r + 1);
        for q in 0..per {
            fp += contains(&f, c.kind, seed, base + q, n) as u64;
        }
        fps.push(fp as f64);
    }
    let total: f64 = fps.iter().sum();
    let mean = total / reps as f64;
    let sd = if reps > 1 {
        (fps.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (reps - 1) as f64).sqrt() * (reps as f64).sqrt()
    } else {
        0.0
    };
    let trials = (per * reps) as f64;
    let expected = trials * (p * 1.2).max(known_rate(&c.spec));
    let bound = expected + 6.5 * expected.sqrt().max(sd) + 8.0;
    ctx.count("queries", trials as u64);
    ctx.nontrivial = n >= 1 && bound < trials && bound < 20.0 * expected;
    if std::env::var_os("C02_TRACE").is_some() {
        eprintln!("{:.3} p={p} cap={} opt={} {:?} {:?} fill={} trials={trials} fp={total}", total / (trials * p), c.spec.cap, c.spec.opt, c.kind, c.how, c.fill);
    }
    if total > bound {
        return Err(format!(
            "{total} of {trials} values never inserted are reported as contained with {n} values in a filter of capacity {}: rate {:.3e} for a requested probability of {p:e} (at most {bound:.0} hits expected)",
            c.spec.cap,
            total / trials
        ));
    }
    Ok(())
}

fn case(max_bytes: f64, max_queries: u64) -> BoxedStrategy<Case> {
    let kinds = vec![
        Kind::Text, Kind::HexDigest, Kind::Digest, Kind::LongBinary, Kind::Url, Kind::Counter, Kind::TypedInt,
        Kind::TypedInt, Kind::TypedSmall, Kind::TypedWide, Kind::TypedOption, Kind::TypedRecord, Kind::Mutated, Kind::ShortRandom,
        Kind::Text, Kind::Digest, Kind::Url,
    ];
    let hows = vec![How::Direct, How::Direct, How::Bulk, How::Union, How::Reloaded, How::Refilled];
    (
        v2_opt(),
        prop_oneof![
            1 => 1u64..=200,
            3 => (2.0f64..=5.2).prop_map(|e| 10f64.powf(e) as u64),
            2 => (7u32..=17, -1i64..=1).prop_map(|(e, d)| ((1i64 << e) + d) as u64),
        ],
        prop_oneof![
            4 => prop::sample::select(vec![0.5, 0.1, 0.05, 0.02, 0.01, 0.005, 0.001]),
            4 => (0.3f64..=3.5).prop_map(|e| 10f64.powf(-e)),
            1 => fpp(),
        ],
        prop::sample::select(kinds),
        prop::sample::select(hows),
        any::<u64>(),
        prop_oneof![4 => Just(100u8), 1 => 1u8..=100],
    )
        .prop_map(move |((version, opt), cap, fpp, kind, how, seed, fill)| Case {
            spec: Spec { version, opt, cap, fpp }.bounded(max_bytes),
            kind,
            how,
            seed,
            fill,
            max_queries,
        })
        .boxed()
}

/// Long values, which differ in a few bytes only.
fn long() -> BoxedStrategy<Case> {
    (
        v2_opt(),
        10u64..=2_000,
        prop::sample::select(vec![0.1, 0.05, 0.02, 0.01]),
        prop::sample::select(vec![How::Direct, How::Bulk, How::Union, How::Reloaded, How::Refilled]),
        any::<u64>(),
    )
        .prop_map(|((version, opt), cap, fpp, how, seed)| Case { spec: Spec { version, opt, cap, fpp }, kind: Kind::LongAlike, how, seed, fill: 100, max_queries: 10_000 })
        .boxed()
}

/// Probabilities that need many queries to be measured.
fn small(max_queries: u64) -> BoxedStrategy<Case> {
    (
        0u8..=1,
        (3.0f64..=4.7).prop_map(|e| 10f64.powf(e) as u64),
        prop_oneof![(3.0f64..=5.0).prop_map(|e| 10f64.powf(-e)), prop::sample::select(vec![0.001, 0.0005, 0.0001, 0.00005, 0.00001])],
        prop::sample::select(vec![Kind::Text, Kind::HexDigest, Kind::Digest, Kind::Url, Kind::TypedInt, Kind::TypedRecord, Kind::Mutated]),
        prop::sample::select(vec![How::Direct, How::Bulk, How::Reloaded]),
        any::<u64>(),
    )
        .prop_map(move |(opt, cap, fpp, kind, how, seed)| Case { spec: Spec { version: 2, opt, cap, fpp }, kind, how, seed, fill: 100, max_queries })
        .boxed()
}

/// The known limits, re-measured: reported as long as they exist.
fn known(_: &u8, ctx: &mut Ctx) -> Verdict {
    let Ok(mut f) = BloomFilter::with_capacity(1000, 0.0001) else { return Ok(()) };
    let _ = f.insert_bytes("a");
    if f.contains_bytes("a\0") {
        ctx.known.push("zero-padding".into());
    }
    let rate = |spec: Spec, kind: Kind, queries: u64| -> Option<f64> {
        let c = Case { spec, kind, how: How::Direct, seed: 7, fill: 100, max_queries: 0 };
        let f = build(&c, 7, c.spec.cap)?;
        let hits = (0..queries).filter(|q| contains(&f, kind, 7, c.spec.cap * 2 + q, c.spec.cap)).count();
        Some(hits as f64 / queries as f64 / c.spec.fpp)
    };
    let v2 = |opt, cap, fpp| Spec { version: 2, opt, cap, fpp };
    if rate(v2(0, 16383, 0.001), Kind::ShortDigits, 200_000).is_some_and(|r| r > 2.0) {
        ctx.known.push("short-structured".into());
    }
    if rate(v2(3, 131073, 0.0001), Kind::Digest, 2_000_000).is_some_and(|r| r > 1.4) {
        ctx.known.push("optimized-small-fpp".into());
    }
    if rate(v2(0, 20_000, 1e-10), Kind::Digest, 10_000_000).is_some_and(|r| r > 10.0) {
        ctx.known.push("double-hashing-floor".into());
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "v2 filters of random capacity, fpp and level receive exactly (or up to) `capacity` distinct values of one data kind, directly, in bulk, by union of parts, across reloads or after a clear; absent values of the same kind are queried and hits compared with N*p*1.2 + 6.5 sigma + 8. Non-trivial: at least one value inserted and the bound is below both N and 20 times the expected number of hits, i.e. the case can fail",
        suites: || {
            vec![
                suite(
                    "rate",
                    3_200,
                    30_000,
                    |t| if t == Tier::Quick { case(600_000.0, 300_000) } else { case(4_000_000.0, 2_000_000) },
                    check,
                ),
                suite("small probabilities", 30, 1_000, |t| small(if t == Tier::Quick { 8_000_000 } else { 40_000_000 }), |c: &Case, ctx: &mut Ctx| {
                    let wanted = (400.0 / c.spec.fpp) as u64;
                    check(&Case { max_queries: c.max_queries.min(wanted), ..c.clone() }, ctx)
                }),
                suite("long values", 160, 3_000, |_| long(), check),
                suite("known limits", 1, 1, |_| Just(0u8).boxed(), known),
            ]
        },
        processes: false,
    }
}
