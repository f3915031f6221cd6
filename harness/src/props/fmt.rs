//! C06 and C07: both file formats, bit for bit, in both directions.

use super::c15::{Record, Shape, Wrap};
use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::*;
use poppy_filters::{v1, v2, BloomFilter};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// values and bulk values inserted in turn
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    One(Key),
    Many(KeySet),
}

fn items(max: usize) -> BoxedStrategy<Vec<Item>> {
    prop::collection::vec(
        prop_oneof![4 => key().prop_map(Item::One), 1 => keyset(max).prop_map(Item::Many)],
        0..12,
    )
    .boxed()
}

fn for_each(items: &[Item], mut f: impl FnMut(&[u8]) -> Verdict) -> Verdict {
    for i in items {
        match i {
            Item::One(k) => f(&k.bytes())?,
            Item::Many(s) => {
                for v in s.iter() {
                    f(&v)?
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Write {
    spec: Spec,
    items: Vec<Item>,
    data: Blob,
    via: u8,
    ctor: u8,
}

/// creates the filter in one of several ways
fn create(s: &Spec, ctor: u8) -> Result<BloomFilter, String> {
    let e = |e: poppy_filters::Error| format!("creation failed: {e}");
    Ok(match (s.version, s.opt, ctor % 4) {
        (1, _, 1) => BloomFilter::V1(v1::BloomFilter::with_capacity(s.cap, s.fpp).map_err(e)?),
        (1, _, 2) => BloomFilter::with_version_capacity(1, s.cap as usize, s.fpp).map_err(e)?,
        (1, _, 3) => BloomFilter::V1(s.params().try_into_v1().map_err(e)?),
        (2, 0, 1) => BloomFilter::V2(v2::BloomFilter::with_capacity(s.cap, s.fpp).map_err(e)?),
        (2, 0, 2) => BloomFilter::with_capacity(s.cap as usize, s.fpp).map_err(e)?,
        (2, _, 3) => BloomFilter::V2(s.params().try_into_v2().map_err(e)?),
        _ => s.create()?,
    })
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", a.len(), b.len());
    }
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    format!("byte {at} of {} is {:#04x} instead of {:#04x}", a.len(), a[at], b[at])
}

/// the model with the geometry of this filter, if the geometry is one the format allows
fn matching(s: &Spec, bytes: &[u8]) -> Result<Ref, String> {
    let cands = Ref::candidates(s.version, s.opt, s.cap, s.fpp);
    if let Some(r) = cands.iter().find(|r| r.bytes() == bytes) {
        return Ok(r.clone());
    }
    Err(format!("a new filter {s:?} is not serialized as the format prescribes: {}", first_diff(bytes, &cands[0].bytes())))
}

fn check_write(c: &Write, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = create(&c.spec, c.ctor) else { return Ok(()) };
    let mut r = matching(&c.spec, &dump(&f))?;
    let mut n = 0u64;
    let mut via = c.via;
    for_each(&c.items, |v| {
        // capacity handling is the business of C03: stop where the model would refuse
        if !r.contains(v) && r.count() >= c.spec.cap {
            return Ok(());
        }
        let _ = r.insert(v);
        let _ = insert_via(&mut f, v, via);
        via = via.wrapping_add(1);
        n += 1;
        Ok(())
    })?;
    let d = c.data.bytes();
    r.set_data(d.clone());
    set_data(&mut f, d);
    let (got, want) = (dump(&f), r.bytes());
    if got != want {
        return Err(format!("after {n} insertions the serialized filter differs from what the format prescribes: {}", first_diff(&got, &want)));
    }
    ctx.nontrivial = n >= 1;
    ctx.count("values", n);
    Ok(())
}

/// A file made by another implementation.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadCase {
    spec: Spec,
    /// v1: (number of bits, hashes); v2: (hashes, log2 of cache bytes or none, buckets)
    custom: Option<(u64, u64, Option<u8>)>,
    /// permille of bits set at random before anything is inserted
    noise: u32,
    seed: u64,
    items: Vec<Item>,
    probes: Vec<Key>,
    data: Blob,
    later: Vec<Item>,
    via: u8,
}

fn sprinkle(b: &mut [u8], permille: u32, seed: u64) {
    if permille == 0 {
        return;
    }
    let mut s = mix(seed);
    for x in b.iter_mut() {
        for bit in 0..8 {
            s = mix(s);
            if (s % 1000) < permille as u64 {
                *x |= 1 << bit;
            }
        }
    }
}

fn check_read(c: &ReadCase, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let s = &c.spec;
    let mut r = match (s.version, c.custom) {
        (1, None) => Ref::V1({
            let (m, k) = RefV1::geometry(s.cap, s.fpp)[0];
            RefV1::with_geometry(s.cap, s.fpp, m, k)
        }),
        (1, Some((m, k, _))) => Ref::V1(RefV1::with_geometry(s.cap, s.fpp, m, k)),
        (_, None) => Ref::V2(RefV2::with_geometry(s.cap, s.fpp, s.opt, RefV2::geometry(s.cap, s.fpp, s.opt)[0])),
        (_, Some((nb, k, cache))) => {
            Ref::V2(RefV2::with_geometry(s.cap, s.fpp, s.opt, (k, cache.map_or(0, |e| 1 << e), nb)))
        }
    };
    match &mut r {
        Ref::V1(r) => {
            let mut b: Vec<u8> = r.words.iter().flat_map(|w| w.to_le_bytes()).collect();
            sprinkle(&mut b, c.noise, c.seed);
            r.words = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            // bits beyond the announced number stay zero
            if r.m % 64 != 0 {
                if let Some(w) = r.words.last_mut() {
                    *w &= (1 << (r.m % 64)) - 1;
                }
            }
        }
        Ref::V2(r) => {
            sprinkle(&mut r.buckets, c.noise, c.seed);
            sprinkle(&mut r.cache, c.noise, !c.seed);
        }
    }
    let mut inserted = 0u64;
    for_each(&c.items, |v| {
        inserted += r.insert(v).is_some() as u64;
        Ok(())
    })?;
    r.set_data(c.data.bytes());
    let bytes = r.bytes();
    let mut f = load(&bytes).map_err(|e| format!("a valid file was not accepted: {e}"))?;
    if f.version() != s.version || f.capacity() as u64 != s.cap || f.fpp().to_bits() != s.fpp.to_bits() || f.count_estimate() != r.count() {
        return Err(format!(
            "loaded as version {} capacity {} fpp {} count {}, the file says {} {} {} {}",
            f.version(), f.capacity(), f.fpp(), f.count_estimate(), s.version, s.cap, s.fpp, r.count()
        ));
    }
    let mut yes = 0u64;
    let mut no = 0u64;
    let mut via = c.via;
    let mut probe = |f: &BloomFilter, r: &Ref, v: &[u8]| {
        let (got, want) = (contains_via(f, v, via), r.contains(v));
        via = via.wrapping_add(1);
        if want {
            yes += 1
        } else {
            no += 1
        }
        if got != want {
            return Err(format!("{} is {}contained by the format but contains says {got}", short(v), if want { "" } else { "not " }));
        }
        Ok(())
    };
    for k in &c.probes {
        probe(&f, &r, &k.bytes())?;
    }
    for_each(&c.items, |v| probe(&f, &r, v))?;
    for i in 0..200u64 {
        probe(&f, &r, &gen_bytes(Style::Random, (i % 40) as usize, c.seed ^ i))?;
    }
    if dump(&f) != bytes {
        return Err(format!("a loaded file is not written back as it was: {}", first_diff(&dump(&f), &bytes)));
    }
    // and it can be continued
    for_each(&c.later, |v| {
        if !r.contains(v) && r.count() >= s.cap {
            return Ok(());
        }
        let _ = r.insert(v);
        let _ = f.insert_bytes(v);
        Ok(())
    })?;
    let (got, want) = (dump(&f), r.bytes());
    if got != want {
        return Err(format!("insertions into a loaded file give other bits than the format prescribes: {}", first_diff(&got, &want)));
    }
    ctx.count("probes contained", yes);
    ctx.count("probes not contained", no);
    if c.custom.is_some() {
        ctx.label("unusual geometry");
    }
    ctx.nontrivial = yes > 0 && no > 0;
    Ok(())
}

/// v1 takes a level and does nothing with it
fn vo(version: u8) -> BoxedStrategy<(u8, u8)> {
    match version {
        1 => prop_oneof![3 => Just((1u8, 0u8)), 1 => (1u8..=3).prop_map(|o| (1u8, o))].boxed(),
        _ => v2_opt(),
    }
}

fn spec_of(version: u8, max: f64) -> BoxedStrategy<Spec> {
    spec_with(vo(version), max)
}

fn write_case(version: u8, max: f64, bulk: usize) -> BoxedStrategy<Write> {
    (spec_of(version, max), items(bulk), blob(), any::<u8>(), any::<u8>())
        .prop_map(|(spec, items, data, via, ctor)| Write { spec, items, data, via, ctor })
        .boxed()
}

fn read_case(version: u8, max: f64) -> BoxedStrategy<ReadCase> {
    let custom = if version == 1 {
        (
            prop_oneof![1u64..=300, 1u64..=20_000, (1u64..200).prop_map(|b| b * 64)],
            prop_oneof![4 => 1u64..=20, 1 => 1u64..=200],
            Just(None),
        )
            .boxed()
    } else {
        (
            prop_oneof![2 => 1u64..=6, 1 => 1u64..=24, 1 => prop::sample::select(vec![1u64, 2, 4, 8, 16])],
            prop_oneof![4 => 1u64..=20, 1 => 1u64..=200],
            prop::option::of(0u8..=14),
        )
            .boxed()
    };
    (
        spec_of(version, max),
        prop::option::weighted(0.5, custom),
        prop_oneof![2 => Just(0u32), 2 => 1u32..=1000, 1 => Just(500u32), 1 => 900u32..=1000],
        any::<u64>(),
        items(300),
        prop::collection::vec(key(), 0..8),
        blob(),
        items(100),
        any::<u8>(),
    )
        .prop_map(|(mut spec, custom, noise, seed, items, probes, data, later, via)| {
            spec.cap = spec.cap.max(1);
            ReadCase { spec, custom, noise, seed, items, probes, data, later, via }
        })
        .boxed()
}

// ---------------------------------------------------------------- typed values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TypedCase {
    spec: Spec,
    /// kind of value, its content, and whether it is only looked up
    items: Vec<(u8, u64, String, bool)>,
    prepared: bool,
}

fn check_typed(c: &TypedCase, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(f) = c.spec.create() else { return Ok(()) };
    let Ref::V2(mut r) = matching(&c.spec, &dump(&f))? else { return Ok(()) };
    let BloomFilter::V2(mut f) = f else { return Ok(()) };
    let mut n = 0u64;
    for (kind, x, s, only_look) in &c.items {
        let x = *x;
        let wide = (x as u128) << 64 | mix(x) as u128;
        macro_rules! one {
            ($v:expr) => {{
                let v = $v;
                let h = h1_typed(&v);
                let want = r.contains_hash(h);
                if f.contains(&v) != want {
                    return Err(format!("{v:?} is {}contained by the format, contains says {}", if want { "" } else { "not " }, !want));
                }
                // capacity handling is the business of C03
                if !*only_look && (want || r.n < r.cap) {
                    let _ = r.insert_hash(h);
                    let _ = if c.prepared { f.insert_iter(v2::BloomFilter::build_index_iter(&v)) } else { f.insert(&v) };
                    n += 1;
                }
            }};
        }
        match kind % 18 {
            0 => one!(x as u8),
            1 => one!(x as u16),
            2 => one!(x as u32),
            3 => one!(x),
            4 => one!(wide),
            5 => one!(x as usize),
            6 => one!(x as i8),
            7 => one!(x as i16),
            8 => one!(x as i32),
            9 => one!(x as i64),
            10 => one!(wide as i128),
            11 => one!(x as isize),
            12 => one!(Some(x)),
            13 => one!(Some(s.clone())),
            14 => one!(None::<u64>),
            15 => one!(Record {
                id: x,
                name: s.clone(),
                tags: s.bytes().map(|b| b as u16).collect(),
                parent: (x % 3 == 0).then(|| Box::new(Record { id: x / 3, name: String::new(), tags: vec![], parent: None })),
            }),
            16 => one!(Shape::Named { name: s.clone(), size: wide }),
            _ => one!(Wrap((x, s.clone(), s.as_bytes().to_vec(), [1u8, 2, 3], x as u16))),
        }
        ctx.label(format!("kind {}", kind % 18));
    }
    let (got, want) = (dump(&BloomFilter::V2(f)), r.bytes());
    if got != want {
        return Err(format!("after {n} insertions of typed values the serialized filter differs from what the format prescribes: {}", first_diff(&got, &want)));
    }
    ctx.nontrivial = n > 0;
    ctx.count("values", n);
    Ok(())
}

const RULE: &str = "write: filters of random parameters through all constructors, compared as created and after insertions (all interfaces) and attaching data, byte for byte, with an independent model of the format; geometry: parameters only, including large capacities; read: files written by the model, half of them with unusual geometry and random bits, must load, answer, be written back and continue like the model; typed (v2): integers, options and user types, hashed piece by piece as their Hash implementation writes them. Non-trivial: something was inserted (write, typed), both contained and absent probes occurred (read), capacity above zero (geometry)";

fn check_geometry(s: &Spec, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, s);
    let Ok(f) = s.create() else { return Ok(()) };
    let got = dump(&f);
    matching(s, &got)?;
    ctx.nontrivial = s.cap > 0;
    Ok(())
}

fn suites(version: u8) -> Vec<Suite> {
    let mut all = vec![
        suite(
            "write",
            24_000,
            300_000,
            move |t| write_case(version, if t == Tier::Quick { 60_000.0 } else { 120_000.0 }, 400),
            check_write,
        ),
        suite("read", 16_000, 200_000, move |_| read_case(version, 40_000.0), check_read),
        suite(
            "geometry",
            12_000,
            150_000,
            move |_| {
                (
                    vo(version),
                    prop_oneof![2 => capacity(), 3 => (0.0f64..=6.5).prop_map(|e| 10f64.powf(e) as u64)],
                    prop_oneof![3 => fpp(), 2 => (0.0f64..=6.0).prop_map(|e| 10f64.powf(-e)), 1 => 0.5f64..=1.0],
                )
                    .prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp }.bounded(1_000_000.0))
                    .boxed()
            },
            check_geometry,
        ),
        suite(
            "large",
            160,
            1_600,
            move |t| {
                let (max, n) = if t == Tier::Quick { (3e6, 20_000) } else { (2e7, 200_000) };
                (write_case(version, max, 1000), keyset(100), (3.0f64..=6.5))
                    .prop_map(move |(mut w, mut set, e)| {
                        w.spec.cap = 10f64.powf(e) as u64;
                        w.spec = w.spec.bounded(max);
                        set.n = (w.spec.cap as usize).min(n);
                        w.items.push(Item::Many(set));
                        w
                    })
                    .boxed()
            },
            check_write,
        ),
        suite_fixed(
            "long values",
            96,
            600,
            move |_| {
                (write_case(version, 20_000.0, 10), big_key())
                    .prop_map(|(mut w, k)| {
                        w.items.truncate(2);
                        w.items.insert(0, Item::One(k));
                        w
                    })
                    .boxed()
            },
            check_write,
        ),
        giant::suite(if version == 1 { giant::What::FormatV1 } else { giant::What::FormatV2 }),
    ];
    if version == 2 {
        all.push(suite(
            "typed",
            12_000,
            150_000,
            |_| {
                let x = prop_oneof![any::<u64>(), 0u64..20, Just(u64::MAX), (0u32..64).prop_map(|b| 1 << b)];
                (
                    spec_of(2, 40_000.0),
                    prop::collection::vec((any::<u8>(), x, prop_oneof![4 => ".{0,12}", 1 => "[a-z]{0,80}"], prop::bool::weighted(0.2)), 1..24),
                    any::<bool>(),
                )
                    .prop_map(|(spec, items, prepared)| TypedCase { spec, items, prepared })
                    .boxed()
            },
            check_typed,
        ));
    }
    all
}

pub fn c06() -> Prop {
    Prop { id: "C06", rule: RULE, suites: || suites(1), processes: false }
}

pub fn c07() -> Prop {
    Prop { id: "C07", rule: RULE, suites: || suites(2), processes: false }
}
