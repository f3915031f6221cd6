//! Space.

use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// stands in where the library has no function of this name
#[allow(dead_code)]
mod formula {
    pub fn bit_size(cap: u64, fpp: f64) -> u64 {
        (cap as f64 * -fpp.ln() / (std::f64::consts::LN_2 * std::f64::consts::LN_2)).floor() as u64
    }
}

fn library_bit_size(cap: u64, fpp: f64) -> u64 {
    #[allow(unused_imports)]
    use formula::*;
    {
        #[allow(unused_imports)]
        use poppy_filters::*;
        bit_size(cap, fpp)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Formula {
    cap: u64,
    #[serde(with = "f64s")]
    fpp: f64,
    more: u64,
    #[serde(with = "f64s")]
    smaller: f64,
}

fn check_formula(c: &Formula, ctx: &mut Ctx) -> Verdict {
    let m = no_panic("bit_size", || library_bit_size(c.cap, c.fpp))?;
    let ln2 = std::f64::consts::LN_2;
    let x = c.cap as f64 * -c.fpp.ln() / (ln2 * ln2);
    let eps = 1e-9 * x.max(1.0);
    // a fraction of a bit may be dropped or rounded up
    if (m as f64) < (x - eps).floor() && m != u64::MAX || (m as f64) > (x + eps).ceil() {
        return Err(format!("{} values at a probability of {:?} need {x:.1} bits, bit_size gives {m}", c.cap, c.fpp));
    }
    let larger = c.cap.saturating_add(c.more);
    let m2 = library_bit_size(larger, c.fpp);
    if (m2 as f64) < m as f64 * (1.0 - 1e-12) - 1e-9 {
        return Err(format!("{larger} values get {m2} bits, {} values {m} (probability {:?})", c.cap, c.fpp));
    }
    let p = c.fpp * c.smaller;
    if p.is_normal() {
        let m3 = library_bit_size(c.cap, p);
        if (m3 as f64) < m as f64 * (1.0 - 1e-12) - 1e-9 {
            return Err(format!("{} values get {m3} bits at {p:?} and {m} at {:?}", c.cap, c.fpp));
        }
    }
    ctx.nontrivial = x >= 1.0 && x < 1.8e19;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size {
    spec: Spec,
    data: Blob,
}

fn check_size(c: &Size, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let s = &c.spec;
    let Ok(mut f) = s.create() else { return Ok(()) };
    set_data(&mut f, c.data.bytes());
    let saved = dump(&f).len() - f.data().len();
    let reported = f.size_in_bytes();
    if reported > saved || saved > reported + 64 {
        return Err(format!("{s:?} reports {reported} bytes and takes {saved} in its saved form"));
    }
    let ln2 = std::f64::consts::LN_2;
    let best = s.cap as f64 * -s.fpp.ln() / (ln2 * ln2);
    match &f {
        BloomFilter::V1(b) => {
            let geo = RefV1::geometry(s.cap, s.fpp);
            if !geo.contains(&(b.n_bits(), b.n_hash_fn())) {
                return Err(format!("{s:?} has {} bits and {} hash functions, the formulas give {geo:?}", b.n_bits(), b.n_hash_fn()));
            }
            if s.cap > 0 && b.n_bits() != library_bit_size(s.cap, s.fpp).max(1) {
                return Err(format!("{s:?} has {} bits, bit_size is {}", b.n_bits(), library_bit_size(s.cap, s.fpp)));
            }
            if b.size_in_u64() as u64 != b.n_bits().div_ceil(64) || b.size_in_bytes() != b.size_in_u64() * 8 {
                return Err(format!("{s:?}: {} bits, {} words, {} bytes", b.n_bits(), b.size_in_u64(), b.size_in_bytes()));
            }
            if (reported as f64) * 8.0 > best.max(1.0) * (1.0 + 1e-9) + 64.0 {
                return Err(format!("{s:?} takes {reported} bytes, {best:.0} bits are enough"));
            }
        }
        BloomFilter::V2(b) => {
            // whole values per bucket
            let x = if s.fpp == 1.0 { f64::INFINITY } else { BUCKET_BITS as f64 * ln2 * ln2 / -s.fpp.ln() };
            let (lo, hi) = ((x * (1.0 - 1e-9)).floor(), (x * (1.0 + 1e-9)).floor());
            let need = s.cap as f64 / lo;
            let most = if s.opt == 2 { 2.0 * (need + 1.0) } else { need + 1.0 } * (1.0 + 1e-9);
            let cache = if s.opt < 2 { (0.0, 0.0) } else { (s.cap as f64 / 8.0, (s.cap as f64 / 4.0).max(1.0) + 1.0) };
            let min = if s.cap == 0 { 0.0 } else { (s.cap as f64 / hi * (1.0 - 1e-9)).ceil().max(1.0) };
            let r = reported as f64;
            if r < min * BUCKET as f64 + cache.0 {
                return Err(format!("{s:?} takes {reported} bytes, which is not enough for {} values in {min} buckets", s.cap));
            }
            if r > most.max(1.0) * BUCKET as f64 + cache.1 {
                return Err(format!("{s:?} takes {reported} bytes, {min} buckets are enough"));
            }
            if b.size_in_bytes() != reported || b.count_zeros() % (8 * BUCKET) != 0 || b.count_zeros() / 8 > reported {
                return Err(format!("{s:?} takes {reported} bytes and has {} unset bits", b.count_zeros()));
            }
        }
    }
    ctx.nontrivial = s.cap > 0;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Estimate {
    spec: Spec,
    /// number of bits and of hashes of a file
    custom: Option<(u64, u64)>,
    count: u64,
    set: KeySet,
}

fn estimate(n: u64, m: u64) -> (f64, f64) {
    let x = std::f64::consts::LN_2 * m as f64 / n as f64;
    let one = |k: f64| (1.0 - (-k * n as f64 / m as f64).exp()).powf(k);
    let eps = 1e-9 * x.max(1.0);
    let (a, b, c) = (one((x - eps).ceil()), one(x.ceil()), one((x + eps).ceil()));
    (a.min(b).min(c), a.max(b).max(c))
}

fn check_estimate(c: &Estimate, ctx: &mut Ctx) -> Verdict {
    let mut f = match c.custom {
        None => match c.spec.create() {
            Ok(f) => f,
            Err(_) => return Ok(()),
        },
        Some((m, k)) => {
            let mut r = RefV1::with_geometry(c.spec.cap, c.spec.fpp, m, k);
            r.n = c.count;
            load(&r.bytes())?
        }
    };
    let look = |f: &BloomFilter| -> Verdict {
        let BloomFilter::V1(b) = f else { return Ok(()) };
        let (n, m, p) = (b.count_estimate(), b.n_bits(), b.estimated_p());
        if m == 0 {
            return Ok(());
        }
        let (lo, hi) = if n == 0 { (0.0, 0.0) } else { estimate(n, m) };
        if !(lo * (1.0 - 1e-6) - 1e-12..=hi * (1.0 + 1e-6) + 1e-12).contains(&p) {
            return Err(format!("the estimated probability of {n} values in {m} bits is {p:?}, by the formula {lo:?}"));
        }
        if !(0.0..=1.0).contains(&p) {
            return Err(format!("the estimated probability is {p:?}"));
        }
        Ok(())
    };
    look(&f)?;
    let mut n = 0;
    for v in c.set.iter() {
        n += matches!(f.insert_bytes(v), Ok(true)) as u64;
        look(&f)?;
    }
    ctx.count("insertions", n);
    ctx.nontrivial = n > 0;
    Ok(())
}

fn any_fpp() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => fpp(),
        3 => (0.0f64..=300.0).prop_map(|e| 10f64.powf(-e)),
        3 => (0.0f64..=6.0).prop_map(|e| 10f64.powf(-e)),
        1 => 0.5f64..=1.0,
        1 => Just(1.0),
        1 => Just(f64::MIN_POSITIVE),
    ]
    .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "formula: bit_size for any capacity and valid probability against n*|ln p|/ln2^2, and growing with the capacity and with smaller probabilities; size: new filters of both formats: reported bits, words and bytes against the saved form and against the formulas (v1 exact, v2 between the least number of buckets and one more, level 2 up to twice that, index cache of 1 to 2 bits per value at levels 2 and 3); estimate: estimated_p of v1 filters, of any geometry and count, after each insertion against the formula. Non-trivial: at least one bit and no saturation (formula), capacity above zero (size), something was inserted (estimate)",
        suites: || {
            vec![
                suite(
                    "formula",
                    200_000,
                    3_000_000,
                    |_| {
                        let cap = || prop_oneof![3 => capacity(), 1 => any::<u64>(), 3 => (0.0f64..=19.2).prop_map(|e| 10f64.powf(e) as u64)];
                        (cap(), any_fpp(), prop_oneof![1 => 0u64..=3, 1 => cap()], prop_oneof![Just(1.0), 0.9f64..=1.0, 0.0f64..=1.0])
                            .prop_map(|(cap, fpp, more, smaller)| Formula { cap, fpp, more, smaller })
                            .boxed()
                    },
                    check_formula,
                ),
                suite(
                    "size",
                    24_000,
                    300_000,
                    |_| {
                        (
                            version_opt(),
                            prop_oneof![2 => capacity(), 3 => (0.0f64..=6.5).prop_map(|e| 10f64.powf(e) as u64)],
                            any_fpp(),
                            blob(),
                        )
                            .prop_map(|((version, opt), cap, fpp, data)| Size { spec: Spec { version, opt, cap, fpp }.bounded(1_000_000.0), data })
                            .boxed()
                    },
                    check_size,
                ),
                suite(
                    "estimate",
                    12_000,
                    150_000,
                    |_| {
                        (
                            spec_with(Just((1u8, 0u8)).boxed(), 20_000.0),
                            prop::option::weighted(0.4, (1u64..=20_000, 1u64..=30)),
                            prop_oneof![0u64..=10, 0u64..=3000, any::<u64>()],
                            keyset(200),
                        )
                            .prop_map(|(spec, custom, count, set)| Estimate { spec, custom, count, set })
                            .boxed()
                    },
                    check_estimate,
                ),
            ]
        },
        processes: false,
    }
}
