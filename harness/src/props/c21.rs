//! Command line: benchmark.

use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use crate::model::f64s;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

/// the rates that were printed
fn rates(out: &str) -> Vec<f64> {
    out.lines().filter_map(|l| l.trim().strip_prefix("fp rate =")).filter_map(|x| x.trim().parse().ok()).collect()
}

/// the verdict follows from the printed rates
fn consistent(r: &Out, fpp: f64, tol: f64, what: &str, ctx: &mut Ctx) -> Result<Vec<f64>, String> {
    let v = rates(&r.text());
    if v.is_empty() {
        return Err(format!("{what} prints no false positive rates: {}", r.err()));
    }
    let mean = v.iter().sum::<f64>() / v.len() as f64;
    let limit = fpp + fpp * tol;
    if limit != 0.0 && (mean - limit).abs() <= 1e-9 * limit.abs() {
        ctx.label("undecided");
    } else if mean > limit && r.ok() {
        return Err(format!("{what} passes, but the mean of the rates it prints is {mean} and the limit {limit}"));
    } else if !(mean > limit) && !r.ok() {
        return Err(format!("{what} fails, but the mean of the rates it prints is {mean} and the limit {limit}: {}", r.err()));
    }
    ctx.label(if r.ok() { "passed" } else { "rate not respected" });
    Ok(v)
}

fn run(s: &Scratch, a: &[String], input: Vec<u8>) -> Result<Out, String> {
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    Poppy::new(s.path(), &a).stdin(input).run()
}

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    input: Text,
    /// entries left out of the filter file (None: the filter is made from the input)
    file: Option<Vec<u16>>,
    /// probability the file claims
    claim: Option<u8>,
    #[serde(with = "f64s")]
    tol: f64,
    runs: u8,
    size_mb: Option<u8>,
    test_size: Option<u16>,
    jobs: Option<u8>,
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let lines = c.input.entries();
    let distinct: BTreeSet<&String> = lines.iter().collect();
    let mut a = jobs_args(c.jobs);
    a.extend(["bench".into(), format!("-r{}", c.runs), format!("--fp-tol={}", c.tol)]);
    if let Some(n) = c.size_mb {
        a.push(format!("--size-mb={n}"));
    }
    if let Some(n) = c.test_size {
        a.push(format!("--test-size={n}"));
    }
    let mut fpp = c.spec.fpp;
    let mut missing = false;
    if let Some(out) = &c.file {
        let spec = Spec { cap: distinct.len().max(1) as u64, ..c.spec.clone() };
        let Ok(mut f) = spec.create() else { return Ok(()) };
        let leave: BTreeSet<usize> = out.iter().map(|i| *i as usize % distinct.len().max(1)).collect();
        for (i, e) in distinct.iter().enumerate() {
            if !leave.contains(&i) {
                let _ = f.insert_bytes(e);
            }
        }
        let mut d = dump(&f);
        if let Some(x) = c.claim {
            fpp = (fpp / 2f64.powi(x as i32 % 8)).max(f64::MIN_POSITIVE);
            d[16..24].copy_from_slice(&fpp.to_le_bytes());
        }
        s.write("bf", &d);
        a.push("bf".into());
        missing = distinct.iter().any(|e| !f.contains_bytes(e));
    } else {
        a.extend([format!("--version={}", c.spec.version), format!("--fpp={}", c.spec.fpp), format!("--opt={}", c.spec.opt)]);
    }
    let r = run(&s, &a, c.input.bytes())?;
    let what = format!("poppy {a:?} with {} entries", distinct.len());
    if missing {
        if r.ok() {
            return Err(format!("{what} succeeds although the filter lacks an entry"));
        }
        ctx.label("entry missing");
    } else {
        consistent(&r, fpp, c.tol, &what, ctx)?;
    }
    ctx.nontrivial = !distinct.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- genuine rates

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Genuine {
    version: u8,
    opt: u8,
    /// the filter is made for this probability
    #[serde(with = "f64s")]
    fpp: f64,
    n: usize,
    len: usize,
    seed: u64,
    /// the file claims fpp divided by this; 0: no file
    claim: u8,
    #[serde(with = "f64s")]
    tol: f64,
    test: Option<u16>,
}

/// how often f contains random values of this length
fn measure(f: &BloomFilter, len: usize, seed: u64) -> f64 {
    const N: u64 = 40_000;
    let hits = (0..N).filter(|i| f.contains_bytes(gen_bytes(Style::Random, len, mix(seed ^ 0xbe9c) ^ i))).count();
    hits as f64 / N as f64
}

fn check_genuine(c: &Genuine, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let set = KeySet { style: Style::Ascii, len: c.len, spread: 0, seed: c.seed, n: c.n };
    let distinct: BTreeSet<Vec<u8>> = set.iter().collect();
    let mut input: Vec<u8> = vec![];
    for e in set.iter() {
        input.extend(e);
        input.push(b'\n');
    }
    let spec = Spec { version: c.version, opt: c.opt, cap: distinct.len() as u64, fpp: c.fpp };
    let Ok(mut f) = spec.create() else { return Ok(()) };
    for e in set.iter() {
        let _ = f.insert_bytes(e);
    }
    let mut claimed = c.fpp;
    let mut a: Vec<String> = vec!["bench".into(), "-r1".into(), format!("--fp-tol={}", c.tol)];
    if let Some(t) = c.test {
        a.push(format!("--test-size={t}"));
    }
    if c.claim > 0 {
        claimed /= c.claim as f64;
        let mut d = dump(&f);
        d[16..24].copy_from_slice(&claimed.to_le_bytes());
        s.write("bf", &d);
        a.push("bf".into());
    } else {
        a.extend([format!("--version={}", c.version), format!("--fpp={}", c.fpp), format!("--opt={}", c.opt)]);
    }
    let r = run(&s, &a, input)?;
    let what = format!("poppy {a:?} with {} entries", distinct.len());
    let v = consistent(&r, claimed, c.tol, &what, ctx)?;
    // ------------------------------------------------ against an own measurement
    let q = measure(&f, c.len, c.seed);
    let tests = c.test.map_or(distinct.len(), |t| (t as usize).min(distinct.len())) as f64;
    if v.len() != 10 || tests < 400.0 {
        ctx.label("rates not compared");
        return Ok(());
    }
    let own = 8.0 * (q * (1.0 - q) / 40_000.0).sqrt() + 8.0 / 40_000.0;
    let var = |p: f64| q.max(1.0 / tests) / (tests * p);
    let mut sum = 0.0;
    for (i, x) in v.iter().enumerate() {
        let p = (i + 1) as f64 / 10.1;
        sum += var(p);
        let err = 8.0 * var(p).sqrt() + 8.0 / (tests * p) + own;
        if (x - q).abs() > err {
            return Err(format!("{what} prints a rate of {x} where {q} is measured (tolerance {err})"));
        }
    }
    let err = 8.0 * sum.sqrt() / 10.0 + 8.0 / tests + own;
    let mean = v.iter().sum::<f64>() / 10.0;
    if (mean - q).abs() > err {
        return Err(format!("{what} prints a mean rate of {mean} where {q} is measured (tolerance {err})"));
    }
    let limit = claimed * (1.0 + c.tol);
    if q - err > limit && r.ok() {
        return Err(format!("{what} passes although the filter claims {claimed} and delivers {q}"));
    }
    if q + err < limit && !r.ok() {
        return Err(format!("{what} fails although the filter claims {claimed} and delivers {q}"));
    }
    // a filter sized for its data
    if c.claim <= 1 && c.fpp * 1.2 + err < limit {
        if !r.ok() {
            return Err(format!("{what} fails on a filter sized for its data"));
        }
        ctx.label("sized for its data");
    } else if q - err > limit {
        ctx.label("claims too much");
    }
    ctx.nontrivial = q > 0.0;
    Ok(())
}

// ---------------------------------------------------------------- the whole input

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    spec: Spec,
    lines: u32,
    len: usize,
    /// the entry that is missing, counted from the end
    missing: Option<u32>,
    size_mb: Option<u8>,
}

fn check_whole(c: &Whole, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let Ok(mut f) = (Spec { cap: c.lines as u64, ..c.spec.clone() }).create() else { return Ok(()) };
    let mut input = Vec::with_capacity(c.lines as usize * (c.len + 1));
    let skip = c.missing.map(|m| c.lines - 1 - m.min(c.lines - 1));
    let mut lacking = vec![];
    for i in 0..c.lines {
        // long lines, different at the start
        let mut l = format!("{i:08}").into_bytes();
        l.resize(c.len, b'a' + (i % 26) as u8);
        if Some(i) != skip {
            f.insert_bytes(&l).map_err(|e| format!("reference: {e}"))?;
        } else {
            lacking = l.clone();
        }
        input.extend(l);
        input.push(b'\n');
    }
    let missing = skip.is_some() && !f.contains_bytes(&lacking);
    s.write("bf", &dump(&f));
    let mut a: Vec<String> = ["bench", "-r1", "--test-size=1", "--fp-tol=1e12"].map(String::from).to_vec();
    if let Some(n) = c.size_mb {
        a.push(format!("--size-mb={n}"));
    }
    a.push("bf".into());
    let n = input.len();
    let r = run(&s, &a, input)?;
    if missing == r.ok() {
        return Err(format!("poppy {a:?} {} although an entry of the {n} bytes of input is {}: {}", if r.ok() { "succeeds" } else { "fails" }, if missing { "missing" } else { "not missing" }, r.err()));
    }
    ctx.label(if missing { "missing entry found" } else { "all there" });
    ctx.label(if n > 100 << 20 { "more than 100 MB" } else { "up to 100 MB" });
    ctx.nontrivial = missing;
    Ok(())
}

// ---------------------------------------------------------------- a part of the input

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part {
    spec: Spec,
    mb: u8,
    /// length of a line
    len: usize,
    /// size of the input in percent of the limit
    percent: u16,
    /// every line comes twice
    twice: bool,
}

fn check_part(c: &Part, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let limit = (c.mb as usize) << 20;
    let lines = (limit as u64 * c.percent as u64 / 100) as usize / c.len;
    let mut input = Vec::with_capacity(lines * (c.len + 1) * 2);
    for i in 0..lines {
        let mut l = format!("{i:08}").into_bytes();
        l.resize(c.len, b'a' + (i % 26) as u8);
        l.push(b'\n');
        input.extend(&l);
        if c.twice {
            input.extend(&l);
        }
    }
    let a: Vec<String> = [
        "bench".into(),
        "-r1".into(),
        "--test-size=1".into(),
        "--fp-tol=1e12".into(),
        format!("--size-mb={}", c.mb),
        format!("--version={}", c.spec.version),
        format!("--fpp={}", c.spec.fpp),
        format!("--opt={}", c.spec.opt),
    ]
    .to_vec();
    let r = run(&s, &a, input)?;
    // the filter is made for the entries used
    let Some(used) = r.text().lines().filter(|l| l.contains("capacity")).filter_map(|l| l.rsplit(':').next()?.trim().parse::<usize>().ok()).next() else {
        return Err(format!("poppy {a:?} does not show a filter: {}", r.err()));
    };
    let what = format!("poppy {a:?} uses {used} of {lines} entries of {} bytes", c.len);
    let fit = limit / c.len;
    if used > lines || used > fit + 2 {
        return Err(format!("{what}, more than {} MB", c.mb));
    }
    if used + 2 < lines.min(fit) {
        return Err(format!("{what}, less than {} MB", c.mb));
    }
    ctx.label(if lines > fit + 2 { "more than the limit" } else { "within the limit" });
    ctx.nontrivial = lines > fit + 2;
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    (
        (version_opt(), prop::sample::select(vec![0.5, 0.3, 0.1, 0.01, 0.001, 1.0])).prop_map(|((version, opt), fpp)| Spec { version, opt, cap: 0, fpp }),
        text(8, 150),
        prop::option::weighted(0.6, prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..3)]),
        prop::option::of(any::<u8>()),
        prop_oneof![3 => Just(0.2), 1 => Just(0.0), 2 => 0.0f64..3.0, 1 => Just(-0.5), 1 => Just(-1.0), 1 => Just(1000.0)],
        0u8..4,
        prop_oneof![2 => Just(None), 2 => Just(Some(0u8)), 1 => (2u8..200).prop_map(Some)],
        (prop::option::weighted(0.3, prop_oneof![1u16..20, 1u16..2000, Just(0u16)]), jobs()),
    )
        .prop_map(|(spec, input, file, claim, tol, runs, size_mb, (test_size, jobs))| Case { spec, input, file, claim, tol, runs, size_mb, test_size, jobs })
        .boxed()
}

fn genuine() -> BoxedStrategy<Genuine> {
    (
        version_opt(),
        prop_oneof![3 => prop::sample::select(vec![0.5, 0.3, 0.1, 0.05]), 1 => 0.05f64..0.7],
        500usize..4000,
        12usize..40,
        any::<u64>(),
        prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => 4u8..100],
        prop_oneof![1 => Just(0.2), 2 => 1.0f64..4.0],
        prop::option::weighted(0.2, 400u16..4000),
    )
        .prop_map(|((version, opt), fpp, n, len, seed, claim, tol, test)| Genuine { version, opt, fpp, n, len, seed, claim, tol, test })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "the real binary in a scratch directory: bench on generated input without file or on files that lack entries or claim another probability; the verdict recomputed from the printed rates and lookups with the library; printed rates against an own measurement with 40000 random values per filter (8 standard deviations); inputs of more than 100 MB with --size-mb 0 whose last entries are missing from the filter, and of up to 32767 entries with any one missing; inputs around the limit given with --size-mb, where the filter shown must be made for as many distinct entries as fit (two more or less). Non-trivial: there are entries (verdicts), the measured rate is not zero (genuine), an entry is missing (whole input, missing entry), the input is larger than the limit (part of the input)",
        suites: || {
            vec![
                suite("verdicts", 3_000, 30_000, |_| case(), check),
                suite("genuine", 400, 5_000, |_| genuine(), check_genuine),
                suite(
                    "whole input",
                    16,
                    80,
                    |_| {
                        let size = prop_oneof![1 => (100u32..400, 3000usize..8000), 1 => (105u32..112, Just(1usize << 20))];
                        (spec_with(version_opt(), 1e5), size, prop::option::weighted(0.8, 0u32..3))
                            .prop_map(|(mut spec, (lines, len), missing)| {
                                spec.fpp = 0.001;
                                Whole { spec, lines, len, missing, size_mb: Some(0) }
                            })
                            .boxed()
                    },
                    check_whole,
                ),
                suite(
                    "part of the input",
                    48,
                    400,
                    |_| {
                        (spec_with(version_opt(), 1e5), 1u8..4, prop_oneof![1 => 30usize..200, 2 => 200usize..20_000], 20u16..260, any::<bool>())
                            .prop_map(|(mut spec, mb, len, percent, twice)| {
                                spec.fpp = 0.01;
                                Part { spec, mb, len, percent, twice }
                            })
                            .boxed()
                    },
                    check_part,
                ),
                suite(
                    "missing entry",
                    400,
                    4_000,
                    |_| {
                        let lines = (0u32..15).prop_flat_map(|b| (1u32 << b)..(2u32 << b));
                        (spec_with(version_opt(), 1e5), lines, 9usize..60, any::<u32>(), prop_oneof![1 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)], prop::sample::select(vec![None, Some(0u8), Some(3)]))
                            .prop_map(|(mut spec, lines, len, at, how, size_mb)| {
                                spec.fpp = 0.001;
                                // none, one of the last ones or any
                                let missing = [None, Some(at % 3), Some(at % lines)][how as usize];
                                Whole { spec, lines, len, missing, size_mb }
                            })
                            .boxed()
                    },
                    check_whole,
                ),
            ]
        },
        processes: true,
    }
}
