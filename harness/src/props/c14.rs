//! Creation.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::model::f64s;
use poppy_filters::{bloom, v1, v2, BloomFilter, Error, OptLevel, Params, DEFAULT_VERSION};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    version: u8,
    opt: u8,
    cap: u64,
    #[serde(with = "f64s")]
    fpp: f64,
    probes: Vec<Key>,
}

type Made = Vec<(&'static str, Result<BloomFilter, Error>)>;

/// every constructor that makes a filter of this version and level
fn same_params(c: &Case, opt: OptLevel) -> Made {
    let cap = c.cap as usize;
    let params = || Params::new(cap, c.fpp).version(c.version).opt(opt);
    let mut m: Made = vec![
        ("with_version_capacity_opt", BloomFilter::with_version_capacity_opt(c.version, cap, c.fpp, opt)),
        ("try_from(Params)", BloomFilter::try_from(params())),
        ("Params::try_into", params().try_into()),
        ("try_from(Params in another order)", BloomFilter::try_from(Params::new(cap, c.fpp).opt(opt).version(c.version))),
    ];
    if opt == OptLevel::None {
        m.push(("with_version_capacity", BloomFilter::with_version_capacity(c.version, cap, c.fpp)));
        m.push(("try_from(Params without level)", BloomFilter::try_from(Params::new(cap, c.fpp).version(c.version))));
    }
    if c.version == 2 {
        m.push(("try_into_v2", params().try_into_v2().map(BloomFilter::V2)));
        m.push(("v2 try_from(Params)", v2::BloomFilter::try_from(params()).map(BloomFilter::V2)));
        m.push(("try_into_v2 without version", Params::new(cap, c.fpp).opt(opt).try_into_v2().map(BloomFilter::V2)));
        if opt == OptLevel::None {
            m.push(("with_capacity", BloomFilter::with_capacity(cap, c.fpp)));
            m.push(("v2 with_capacity", v2::BloomFilter::with_capacity(c.cap, c.fpp).map(BloomFilter::V2)));
            m.push(("try_from(default Params)", BloomFilter::try_from(Params::new(cap, c.fpp))));
        }
    }
    if c.version == 1 {
        m.push(("try_into_v1", params().try_into_v1().map(BloomFilter::V1)));
        m.push(("v1 try_from(Params)", v1::BloomFilter::try_from(params()).map(BloomFilter::V1)));
        m.push(("try_into_v1 without version", Params::new(cap, c.fpp).opt(opt).try_into_v1().map(BloomFilter::V1)));
        m.push(("v1 with_capacity", v1::BloomFilter::with_capacity(c.cap, c.fpp).map(BloomFilter::V1)));
    }
    m
}

fn valid(p: f64) -> bool {
    p.is_normal() && p > 0.0 && p <= 1.0
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    // levels
    let opt = match OptLevel::try_from(c.opt) {
        Ok(o) if c.opt <= 3 => o,
        Err(_) if c.opt > 3 => {
            ctx.label("unknown level");
            ctx.nontrivial = true;
            return Ok(());
        }
        r => return Err(format!("optimization level {} gives {:?}", c.opt, r.map_err(|e| e.to_string()))),
    };
    let want = [OptLevel::None, OptLevel::Space, OptLevel::Speed, OptLevel::Best][c.opt as usize];
    if opt != want {
        return Err(format!("optimization level {} is taken for {opt:?}", c.opt));
    }
    let p = Params::new(c.cap as usize, c.fpp);
    if p.version != 2 || p.opt != OptLevel::None || DEFAULT_VERSION != 2 {
        return Err(format!("the defaults are version {} (constant {DEFAULT_VERSION}) and level {:?}", p.version, p.opt));
    }
    let p = p.version(c.version).opt(opt);
    if p.version != c.version || p.opt != opt || p.capacity as u64 != c.cap || p.fpp.to_bits() != c.fpp.to_bits() {
        return Err(format!("the parameter builder turned {c:?} into {p:?}"));
    }
    let made = no_panic("creation", || same_params(c, opt))?;
    let mut first: Option<(&str, Vec<u8>)> = None;
    let known_version = c.version == 1 || c.version == 2;
    for (name, r) in made {
        match (r, known_version, valid(c.fpp)) {
            (Err(Error::InvalidVersion(v)), false, _) if v == c.version => ctx.label("unknown version"),
            (Err(Error::WrongFpp(_)), false, false) => {}
            (Err(Error::WrongFpp(p)), true, false) => {
                if p.to_bits() != c.fpp.to_bits() {
                    return Err(format!("{name} refuses {:?} with an error about {p:?}", c.fpp));
                }
                ctx.label("probability refused");
            }
            (Ok(_), true, false) => return Err(format!("{name} accepts the probability {:?}", c.fpp)),
            (Ok(_), false, _) => return Err(format!("{name} accepts version {}", c.version)),
            (Err(e), false, _) => return Err(format!("{name} refuses version {} with another error: {e}", c.version)),
            (Err(e), true, false) => return Err(format!("{name} refuses the probability {:?} with another error: {e}", c.fpp)),
            (Err(e), true, true) => return Err(format!("{name} refuses version {} capacity {} probability {:?} level {}: {e}", c.version, c.cap, c.fpp, c.opt)),
            (Ok(f), true, true) => {
                if f.version() != c.version || f.capacity() as u64 != c.cap || f.fpp().to_bits() != c.fpp.to_bits() {
                    return Err(format!("{name}: asked for {c:?}, got version {} capacity {} probability {:?}", f.version(), f.capacity(), f.fpp()));
                }
                if f.count_estimate() != 0 || !f.data().is_empty() || f.is_full() != (c.cap == 0) {
                    return Err(format!("{name}: the new filter has count {}, {} bytes of data, full {}", f.count_estimate(), f.data().len(), f.is_full()));
                }
                for (i, k) in c.probes.iter().enumerate() {
                    if contains_via(&f, &k.bytes(), i as u8) {
                        return Err(format!("{name}: the new filter contains {}", short(&k.bytes())));
                    }
                }
                for i in 0..20u64 {
                    if f.contains_bytes(gen_bytes(Style::Random, i as usize, i)) {
                        return Err(format!("{name}: the new filter contains something"));
                    }
                }
                let ones = match &f {
                    BloomFilter::V1(b) => b.count_ones(),
                    BloomFilter::V2(b) => b.count_ones(),
                };
                if ones != 0 {
                    return Err(format!("{name}: the new filter has {ones} bits set"));
                }
                let d = dump(&f);
                if c.version == 2 && d[1] != c.opt {
                    return Err(format!("{name}: level {} was asked for, the filter has level {}", c.opt, d[1]));
                }
                match &first {
                    None => first = Some((name, d)),
                    Some((other, o)) => {
                        if *o != d {
                            return Err(format!("{name} and {other} make different filters for {c:?}"));
                        }
                    }
                }
                ctx.label(format!("created v{}", c.version));
            }
        }
    }
    // the macro panics instead
    if c.version == 2 && c.opt == 0 {
        let (cap, fpp) = (c.cap as usize, c.fpp);
        match (no_panic("bloom!", || bloom!(cap, fpp)), valid(fpp)) {
            (Ok(_), false) => return Err(format!("bloom! accepts the probability {fpp:?}")),
            (Err(e), true) => return Err(e),
            (Err(_), false) => {}
            (Ok(f), true) => {
                if first.as_ref().is_some_and(|(_, d)| *d != dump(&f)) {
                    return Err(format!("bloom! makes another filter for {c:?}"));
                }
            }
        }
        if valid(fpp) && cap > 3 && fpp < 0.01 {
            let f = no_panic("bloom! with values", || bloom!(cap, fpp, ["a", "some longer value", "c"]))?;
            if ["a", "some longer value", "c"].iter().any(|v| !f.contains_bytes(v)) {
                return Err("a value given to bloom! is missing".into());
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn any_fpp() -> BoxedStrategy<f64> {
    let near = |x: f64| (-3i64..=3).prop_map(move |d| f64::from_bits((x.to_bits() as i64 + d) as u64));
    prop_oneof![
        6 => fpp(),
        4 => any::<u64>().prop_map(f64::from_bits),
        2 => near(1.0),
        2 => near(f64::MIN_POSITIVE),
        1 => near(0.5),
        1 => near(f64::MAX),
        1 => prop::sample::select(vec![0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -1.0, -0.5, 2.0, 100.0, 1e-310, -f64::MIN_POSITIVE]),
        1 => (0u64..(1 << 52)).prop_map(f64::from_bits),
        1 => 1.0f64..10.0,
        1 => -10.0f64..0.0,
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let version = prop_oneof![4 => Just(1u8), 8 => Just(2u8), 1 => any::<u8>(), 1 => prop::sample::select(vec![0u8, 3, 4, 255])];
    let opt = prop_oneof![10 => 0u8..=3, 1 => any::<u8>(), 1 => Just(4u8)];
    let cap = prop_oneof![8 => capacity(), 1 => any::<u64>(), 1 => Just(u64::MAX)];
    (version, opt, cap, any_fpp(), prop::collection::vec(key_max(100), 0..4))
        .prop_map(|(version, opt, cap, fpp, probes)| {
            let mut c = Case { version, opt, cap, fpp, probes };
            if valid(fpp) {
                let b = Spec { version, opt: opt.min(3), cap, fpp }.bounded(60_000.0);
                // unknown versions are refused before anything is allocated
                if version == 1 || version == 2 {
                    c.cap = b.cap;
                }
            }
            c
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "random versions, levels (all u8), capacities and probabilities (all f64 bit patterns, dense around 0, the smallest normal number and 1) through every constructor, the builder and the macro; acceptance against the predicate of the statement, metadata, emptiness, and equality of what the constructors make. Non-trivial: every case",
        suites: || {
            vec![
                suite("creation", 60_000, 1_500_000, |_| case(), check),
                suite(
                    "large",
                    60,
                    600,
                    |_| {
                        (version_opt(), (4.0f64..=7.5).prop_map(|e| 10f64.powf(e) as u64), fpp())
                            .prop_map(|((version, opt), cap, fpp)| {
                                let s = Spec { version, opt, cap, fpp }.bounded(1.2e7);
                                Case { version, opt, cap: s.cap, fpp, probes: vec![] }
                            })
                            .boxed()
                    },
                    check,
                ),
                giant::suite(giant::What::Create),
            ]
        },
        processes: false,
    }
}
