//! Helper types: sizes, statistics, timing.

use super::Prop;
use crate::engine::*;
use poppy_filters::utils::{benchmark, time_it_once, ByteSize, Stats};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

/// the same size in each of the four forms
fn forms(n: u64) -> Vec<ByteSize> {
    let n = n as usize;
    vec![ByteSize::Bytes(n), ByteSize::Kilo(n), ByteSize::Mega(n), ByteSize::Giga(n), ByteSize::from_bytes(n), ByteSize::from_bytes(n).as_bytes()]
}

fn hash(x: &ByteSize) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * b.abs()
}

fn check_sizes(c: &(u64, u64), ctx: &mut Ctx) -> Verdict {
    let (a, b) = *c;
    for x in forms(a) {
        if x.in_bytes() as u64 != a {
            return Err(format!("a size of {a} bytes is {} bytes", x.in_bytes()));
        }
        if !near(x.in_mb(), a as f64 / 1048576.0) {
            return Err(format!("{a} bytes are {} MB", x.in_mb()));
        }
        for y in forms(b) {
            if (x == y) != (a == b) || x.partial_cmp(&y) != a.partial_cmp(&b) || (x < y) != (a < b) {
                return Err(format!("comparison of {a} and {b} bytes: equal {}, order {:?}", x == y, x.partial_cmp(&y)));
            }
            if a == b && hash(&x) != hash(&y) {
                return Err(format!("equal sizes of {a} bytes have different hashes"));
            }
        }
    }
    let unit = |x: &ByteSize| match x {
        ByteSize::Bytes(_) => 1.0,
        ByteSize::Kilo(_) => 1024.0,
        ByteSize::Mega(_) => 1048576.0,
        ByteSize::Giga(_) => 1073741824.0,
    };
    for x in forms(a) {
        if !near(x.in_unit() * unit(&x), a as f64) {
            return Err(format!("{a} bytes are displayed as {x}, in_unit says {}", x.in_unit()));
        }
    }
    if !matches!(ByteSize::from_bytes(a as usize).as_bytes(), ByteSize::Bytes(n) if n as u64 == a) {
        return Err(format!("as_bytes of {a} bytes is not a number of bytes"));
    }
    if ByteSize::from_bits(a as usize).in_bytes() as u64 != a / 8 {
        return Err(format!("{a} bits are {} bytes", ByteSize::from_bits(a as usize).in_bytes()));
    }
    let want = (a as u128 * 1048576).min(usize::MAX as u128) as usize;
    let got = no_panic("from_mb", || ByteSize::from_mb(a as usize).in_bytes())?;
    if got != want {
        return Err(format!("{a} MB are {got} bytes"));
    }
    ctx.nontrivial = a > 0;
    Ok(())
}

/// 0 true positive, 1 false negative, 2 false positive, 3 true negative; how often
fn check_stats(c: &Vec<(u8, u16)>, ctx: &mut Ctx) -> Verdict {
    let mut s = Stats::new();
    let mut n = [0u64; 4];
    for (kind, times) in c {
        for _ in 0..*times {
            match kind % 4 {
                0 => s.inc_tp(),
                1 => s.inc_fn(),
                2 => s.inc_fp(),
                _ => s.inc_tn(),
            }
            n[*kind as usize % 4] += 1;
        }
        let total: u64 = n.iter().sum();
        if s.total() as u64 != total {
            return Err(format!("the total is {} after {total} observations", s.total()));
        }
        let want = n[2] as f64 / (n[2] + n[3]) as f64;
        let got = s.fp_rate();
        if n[2] + n[3] > 0 && (got - want).abs() > 1e-12 {
            return Err(format!("with {} false positives and {} true negatives the rate is {got}", n[2], n[3]));
        }
    }
    ctx.nontrivial = n[2] > 0 && n[3] > 0;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timing {
    /// microseconds each run sleeps; one more element per run, used cyclically
    sleep: Vec<u16>,
    runs: u32,
}

fn check_timing(c: &Timing, ctx: &mut Ctx) -> Verdict {
    // start and end of every call
    let mut calls: Vec<(Instant, Instant)> = vec![];
    let mut body = || {
        let a = Instant::now();
        let us = if c.sleep.is_empty() { 0 } else { c.sleep[calls.len() % c.sleep.len()] };
        if us > 0 {
            std::thread::sleep(Duration::from_micros(us as u64));
        }
        calls.push((a, Instant::now()));
    };
    let start = Instant::now();
    let got = no_panic("benchmark", || if c.runs == 1 { time_it_once(&mut body) } else { benchmark(&mut body, c.runs) })?;
    let end = Instant::now();
    if calls.len() != c.runs as usize {
        return Err(format!("{} runs were asked for, {} made", c.runs, calls.len()));
    }
    // a run takes at least as long as the call, and no longer than from the end of the call before to the start of the next
    let inner = calls.iter().map(|(a, b)| *b - *a);
    let outer = (0..calls.len()).map(|i| {
        let from = if i == 0 { start } else { calls[i - 1].1 };
        let to = if i + 1 == calls.len() { end } else { calls[i + 1].0 };
        to - from
    });
    let slack = Duration::from_nanos(2);
    if let (Some(lo), Some(hi)) = (inner.min(), outer.max()) {
        if got + slack < lo || got > hi + slack {
            return Err(format!("the time of {} runs that took between {lo:?} and {hi:?} is {got:?}", c.runs));
        }
    }
    ctx.label(match c.runs {
        0 => "no run",
        1 => "one run",
        _ => "several runs",
    });
    ctx.nontrivial = c.runs > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "pairs of sizes over all of u64, dense around unit limits and multiples, in every form: conversions, order, equality and hash against plain integers; sequences of observations against counters; benchmark with 0 to 40 runs of sleeping closures: number of calls, and the result between the shortest call and the longest interval around a call. Non-trivial: size above zero, both false positives and true negatives, at least one run",
        suites: || {
            vec![
                suite(
                    "sizes",
                    40_000,
                    600_000,
                    |_| {
                        let n = || {
                            prop_oneof![
                                2 => any::<u64>().prop_flat_map(|x| (0u32..64).prop_map(move |s| x >> s)),
                                2 => (0u32..64, -2i64..=2).prop_map(|(e, d)| (1u64 << e).wrapping_add_signed(d)),
                                1 => 0u64..5000,
                            ]
                        };
                        (n(), n(), 0u8..4).prop_map(|(a, b, same)| (a, if same == 0 { a } else if same == 1 { a.wrapping_add(b % 3) } else { b })).boxed()
                    },
                    check_sizes,
                ),
                suite("statistics", 8_000, 100_000, |_| prop::collection::vec((any::<u8>(), prop_oneof![3 => 0u16..20, 1 => 0u16..3000]), 0..12).boxed(), check_stats),
                suite(
                    "timing",
                    300,
                    4_000,
                    |_| {
                        (prop::collection::vec(prop_oneof![3 => 0u16..300, 1 => 0u16..3000], 0..8), prop_oneof![1 => Just(0u32), 1 => Just(1u32), 4 => 2u32..=12, 1 => 12u32..=40])
                            .prop_map(|(sleep, runs)| Timing { sleep, runs })
                            .boxed()
                    },
                    check_timing,
                ),
            ]
        },
        processes: false,
    }
}
