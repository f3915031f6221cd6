//! C08 union, C09 intersection and common entries.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::*;
use poppy_filters::{BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

/// what is inserted into one filter
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Content {
    sets: Vec<KeySet>,
    keys: Vec<Key>,
    data: Blob,
    reload: bool,
}

impl Content {
    fn values(&self) -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = self.keys.iter().map(|k| k.bytes()).collect();
        for s in &self.sets {
            v.extend(s.iter());
        }
        v
    }
}

/// contents of different filters often overlap
fn content(max: usize) -> BoxedStrategy<Content> {
    let set = prop_oneof![
        2 => keyset(max),
        3 => (0..=max, 0u64..3).prop_map(|(n, seed)| KeySet { style: Style::Random, len: 12, spread: 5, seed, n }),
    ];
    (
        prop::collection::vec(set, 0..3),
        prop::collection::vec(key(), 0..6),
        prop_oneof![2 => Just(Blob::Lit(vec![])), 1 => blob()],
        any::<bool>(),
    )
        .prop_map(|(sets, keys, data, reload)| Content { sets, keys, data, reload })
        .boxed()
}

struct Built {
    f: BloomFilter,
    /// values whose insertion succeeded
    vals: Vec<Vec<u8>>,
}

fn build(spec: &Spec, c: &Content) -> Option<Built> {
    let mut f = spec.create().ok()?;
    let mut vals = vec![];
    for v in c.values() {
        if f.insert_bytes(&v).is_ok() {
            vals.push(v);
        }
    }
    set_data(&mut f, c.data.bytes());
    if c.reload {
        f = load(&dump(&f)).ok()?;
    }
    Some(Built { f, vals })
}

fn union_of(a: &BloomFilter, b: &BloomFilter, how: u8) -> Result<BloomFilter, Error> {
    match (how % 3, a, b) {
        (1, BloomFilter::V1(a), BloomFilter::V1(b)) => {
            let mut a = a.clone();
            a.union_merge(b)?;
            Ok(BloomFilter::V1(a))
        }
        (1, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            let mut a = a.clone();
            a.union_merge(b)?;
            Ok(BloomFilter::V2(a))
        }
        (2, BloomFilter::V2(a), BloomFilter::V2(b)) => Ok(BloomFilter::V2(a.clone().union(b.clone())?)),
        _ => {
            let mut a = a.clone();
            a.union_merge(b)?;
            Ok(a)
        }
    }
}

fn inter_of(a: &BloomFilter, b: &BloomFilter, how: u8) -> Result<Option<BloomFilter>, Error> {
    match (how % 2, a, b) {
        (0, BloomFilter::V2(a), BloomFilter::V2(b)) => Ok(Some(BloomFilter::V2(a.clone().intersection(b.clone())?))),
        (_, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            let mut a = a.clone();
            a.intersection_merge(b)?;
            Ok(Some(BloomFilter::V2(a)))
        }
        _ => Ok(None),
    }
}

/// the serialized bits (index cache, buckets)
fn bits(f: &BloomFilter) -> Option<Parsed> {
    parse(&dump(f)).ok()
}

fn zip(a: &[u8], b: &[u8], f: fn(u8, u8) -> u8) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}

fn count_ok(what: &str, p: &Parsed, body: &[u8], count: u64) -> Verdict {
    if let Some((est, slack)) = p.estimate(body) {
        if (count as f64) > est + slack || (count as f64) < est - slack {
            return Err(format!("{what} is {count}, the bits imply {est:.2} (rounding allows {slack:.2})"));
        }
    } else {
        let least = p.estimate_at_least(body);
        if (count as f64) < least {
            return Err(format!("{what} is {count}, with a bit less it would be at least {least:.2}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Triple {
    spec: Spec,
    a: Content,
    b: Content,
    c: Content,
    how: u8,
    probes: Vec<Key>,
}

fn triple(max_bytes: f64, n: usize) -> BoxedStrategy<Triple> {
    (
        prop_oneof![3 => spec(max_bytes), 1 => small_spec()],
        content(n),
        content(n),
        content(n / 2),
        any::<u8>(),
        prop::collection::vec(key(), 0..6),
    )
        .prop_map(|(spec, a, mut b, c, how, probes)| {
            // half of the time the second holds some of the first as well
            if how % 2 == 0 {
                b.sets.extend(a.sets.first().cloned().map(|mut s| {
                    s.n = s.n * (how as usize % 5 + 1) / 5;
                    s
                }));
                b.keys.extend(a.keys.first().cloned());
            }
            Triple { spec, a, b, c, how, probes }
        })
        .boxed()
}

fn check_union(t: &Triple, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &t.spec);
    let (Some(a), Some(b), Some(c)) = (build(&t.spec, &t.a), build(&t.spec, &t.b), build(&t.spec, &t.c)) else {
        return Ok(());
    };
    let fail = |e: Error| format!("union of filters with the same parameters failed: {e}");
    let (da, db) = (dump(&a.f), dump(&b.f));
    let mut u = a.f.clone();
    u.union_merge(&b.f).map_err(fail)?;
    if dump(&b.f) != db {
        return Err("the union changed the other filter".into());
    }
    if u.data() != a.f.data() {
        return Err("the union changed the attached data".into());
    }
    // every interface gives the same
    for how in [t.how, 0, 1, 2] {
        if dump(&union_of(&a.f, &b.f, how).map_err(fail)?) != dump(&u) {
            return Err(format!("the union through interface {} differs", how % 3));
        }
    }
    if dump(&a.f) != da {
        return Err("a union of a copy changed the original filter".into());
    }
    // contains everything
    for v in a.vals.iter().chain(&b.vals) {
        if !u.contains_bytes(v) {
            return Err(format!("{} was in one of the merged filters but is not in the union", short(v)));
        }
    }
    let probes: Vec<Vec<u8>> = t
        .probes
        .iter()
        .map(|k| k.bytes())
        .chain((0..60u64).map(|i| gen_bytes(Style::Random, (i % 24) as usize, i ^ t.how as u64)))
        .collect();
    for v in &probes {
        if (a.f.contains_bytes(v) || b.f.contains_bytes(v)) && !u.contains_bytes(v) {
            return Err(format!("{} was reported by one of the merged filters but is not by the union", short(v)));
        }
    }
    let (Some(pa), Some(pb), Some(pc), Some(pu)) = (bits(&a.f), bits(&b.f), bits(&c.f), bits(&u)) else {
        ctx.label("layout not recognised");
        return Ok(());
    };
    // bitwise
    if pu.cache != zip(&pa.cache, &pb.cache, |x, y| x | y) || pu.body != zip(&pa.body, &pb.body, |x, y| x | y) {
        return Err("the bits of the union are not the bits of both filters".into());
    }
    // the same as inserting both sets, as far as there is room
    if let Ok(mut both) = t.spec.create() {
        let fits = a.vals.iter().chain(&b.vals).all(|v| both.insert_bytes(v).is_ok());
        if fits {
            if let Some(p) = bits(&both) {
                if p.cache != pu.cache || p.body != pu.body {
                    return Err("the union has other bits than a filter into which both sets were inserted".into());
                }
                ctx.label("compared with inserting both sets");
            }
        }
    }
    count_ok("the count of the union", &pu, &pu.body, u.count_estimate())?;
    // laws
    let bits_of = |f: BloomFilter| bits(&f).map(|p| (p.cache, p.body));
    let uu = (pu.cache.clone(), pu.body.clone());
    let mut ba = b.f.clone();
    ba.union_merge(&a.f).map_err(fail)?;
    if ba.count_estimate() != u.count_estimate() {
        return Err(format!("the count of the union depends on the order: {} and {}", u.count_estimate(), ba.count_estimate()));
    }
    if bits_of(ba) != Some(uu.clone()) {
        return Err("the union is not commutative".into());
    }
    let mut left = u.clone();
    left.union_merge(&c.f).map_err(fail)?;
    let mut bc = b.f.clone();
    bc.union_merge(&c.f).map_err(fail)?;
    let mut right = a.f.clone();
    right.union_merge(&bc).map_err(fail)?;
    if bits_of(left.clone()) != bits_of(right) {
        return Err("the union is not associative".into());
    }
    if let Some(p) = bits(&left) {
        if p.body != zip(&pu.body, &pc.body, |x, y| x | y) {
            return Err("a second union does not have the bits of both".into());
        }
        count_ok("the count after a second union", &p, &p.body, left.count_estimate())?;
    }
    let mut again = u.clone();
    again.union_merge(&b.f).map_err(fail)?;
    if bits_of(again) != Some(uu.clone()) {
        return Err("merging a filter a second time changes the bits".into());
    }
    let mut selfu = a.f.clone();
    selfu.union_merge(&a.f.clone()).map_err(fail)?;
    if bits_of(selfu) != Some((pa.cache, pa.body)) {
        return Err("the union of a filter with itself changes its bits".into());
    }
    ctx.nontrivial = !a.vals.is_empty() && !b.vals.is_empty();
    Ok(())
}

fn check_inter(t: &Triple, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &t.spec);
    let (Some(a), Some(b)) = (build(&t.spec, &t.a), build(&t.spec, &t.b)) else { return Ok(()) };
    let (da, db) = (dump(&a.f), dump(&b.f));
    let fail = |e: Error| format!("filters with the same parameters refused: {e}");
    let common = a.f.count_common_entries(&b.f).map_err(fail)?;
    let back = b.f.count_common_entries(&a.f).map_err(fail)?;
    if common != back {
        return Err(format!("the number of common entries is not symmetric: {common} and {back}"));
    }
    let inner = match (&a.f, &b.f) {
        (BloomFilter::V1(x), BloomFilter::V1(y)) => x.count_common_entries(y).map_err(fail)?,
        (BloomFilter::V2(x), BloomFilter::V2(y)) => x.count_common_entries(y).map_err(fail)?,
        _ => common,
    };
    if inner != common {
        return Err(format!("generic and specific common counts differ: {common} and {inner}"));
    }
    if dump(&a.f) != da || dump(&b.f) != db {
        return Err("counting common entries changed a filter".into());
    }
    let (pa, pb) = match (bits(&a.f), bits(&b.f)) {
        (Some(x), Some(y)) => (x, y),
        _ => {
            ctx.label("layout not recognised");
            return Ok(());
        }
    };
    let and = zip(&pa.body, &pb.body, |x, y| x & y);
    count_ok("the number of common entries", &pa, &and, common as u64)?;
    let in_b: HashSet<&[u8]> = b.vals.iter().map(|v| &v[..]).collect();
    let shared = a.vals.iter().filter(|v| in_b.contains(&v[..])).count();
    ctx.nontrivial = !a.vals.is_empty() && !b.vals.is_empty();
    if shared > 0 {
        ctx.label("sets overlap");
    }
    let Some(x) = inter_of(&a.f, &b.f, t.how).map_err(fail)? else { return Ok(()) };
    if x.data() != a.f.data() {
        return Err("the intersection changed the attached data".into());
    }
    for how in 0..2 {
        if inter_of(&a.f, &b.f, how).map_err(fail)?.map(|f| dump(&f)) != Some(dump(&x)) {
            return Err("the two intersection interfaces differ".into());
        }
    }
    if dump(&a.f) != da || dump(&b.f) != db {
        return Err("the intersection changed an operand".into());
    }
    let probes = t
        .probes
        .iter()
        .map(|k| k.bytes())
        .chain(a.vals.iter().cloned())
        .chain(b.vals.iter().cloned())
        .chain((0..60u64).map(|i| gen_bytes(Style::Random, (i % 24) as usize, i ^ t.how as u64)));
    let (mut yes, mut no) = (0u64, 0u64);
    for v in probes {
        let want = a.f.contains_bytes(&v) && b.f.contains_bytes(&v);
        if want {
            yes += 1
        } else {
            no += 1
        }
        if x.contains_bytes(&v) != want {
            return Err(format!(
                "{} is {}in both filters but contains of the intersection says {}",
                short(&v),
                if want { "" } else { "not " },
                x.contains_bytes(&v)
            ));
        }
    }
    for v in a.vals.iter().filter(|v| in_b.contains(&v[..])) {
        if !x.contains_bytes(v) {
            return Err(format!("{} was inserted in both filters but is not in the intersection", short(v)));
        }
    }
    ctx.count("probes in both", yes);
    ctx.count("probes not in both", no);
    let Some(px) = bits(&x) else { return Ok(()) };
    if px.body != and || px.cache != zip(&pa.cache, &pb.cache, |x, y| x & y) {
        return Err("the bits of the intersection are not the bits common to both filters".into());
    }
    count_ok("the count of the intersection", &px, &px.body, x.count_estimate())?;
    Ok(())
}

/// many values in filters of some MB
fn huge(t: Tier) -> BoxedStrategy<Triple> {
    let n: usize = if t == Tier::Quick { 100_000 } else { 400_000 };
    (triple(1e6, 2000), (4.8f64..=6.0).prop_map(|e| 10f64.powf(e) as u64), prop::sample::select(vec![0.3, 0.1, 0.01]), n / 3..=n, any::<u64>())
        .prop_map(|(mut t, cap, fpp, n, seed): (Triple, u64, f64, usize, u64)| {
            t.spec.cap = cap;
            t.spec.fpp = fpp;
            t.spec = t.spec.bounded(3e6);
            // two thirds of the larger sets are common
            let set = |seed| KeySet { style: Style::Random, len: 12, spread: 0, seed, n: n * 2 / 3 };
            t.a.sets.extend([set(seed), set(seed ^ 1)]);
            t.b.sets.extend([set(seed ^ 1), set(seed ^ 2)]);
            t
        })
        .boxed()
}

/// Files with more bits than insertions would leave, up to all of them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dense {
    spec: Spec,
    /// densities (of 256, 255 for all bits, 254 for all but one) of the parts, with a seed
    a: (Vec<u8>, u64),
    b: (Vec<u8>, u64),
    /// announced counts
    counts: (u64, u64),
}

fn fill(part: &mut [u8], density: u8, seed: u64) {
    match density {
        254 | 255 => {
            part.fill(0xff);
            if density == 254 && !part.is_empty() {
                let i = mix(seed) as usize % part.len();
                part[i] &= !(1 << (mix(!seed) % 8));
            }
        }
        d => {
            for (i, x) in part.iter_mut().enumerate() {
                let r = mix(seed ^ i as u64).to_le_bytes();
                *x = (0..8).fold(0, |x, j| x | ((r[j] < d) as u8) << j);
            }
        }
    }
}

fn dense(spec: &Spec, (parts, seed): &(Vec<u8>, u64), count: u64) -> Option<BloomFilter> {
    let mut b = dump(&spec.create().ok()?);
    let p = parse(&b).ok()?;
    let end = p.fixed_len();
    let body = end - p.body.len();
    let step = if p.version == 1 { p.body.len().max(1) } else { BUCKET };
    for (i, c) in b[body..end].chunks_mut(step).enumerate() {
        fill(c, parts[i % parts.len()], seed ^ (i as u64) << 32);
    }
    if p.version == 1 {
        // no bits behind the last
        for i in p.m..p.body.len() as u64 * 8 {
            b[body + i as usize / 8] &= !(1 << (i % 8));
        }
    }
    let at = body.checked_sub(8 + p.cache.len())?;
    if p.version == 2 {
        fill(&mut b[at..at + p.cache.len()], parts[0].saturating_add(60), !seed);
    }
    let at = if p.version == 1 { 40 } else { 32 };
    b[at..at + 8].copy_from_slice(&count.to_le_bytes());
    load(&b).ok()
}

fn check_dense(t: &Dense, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &t.spec);
    let (Some(a), Some(b)) = (dense(&t.spec, &t.a, t.counts.0), dense(&t.spec, &t.b, t.counts.1)) else { return Ok(()) };
    let (Some(pa), Some(pb)) = (bits(&a), bits(&b)) else { return Ok(()) };
    let (da, db) = (dump(&a), dump(&b));
    let fail = |e: Error| format!("filters with the same parameters refused: {e}");
    let probes: Vec<Vec<u8>> = (0..60u64).map(|i| gen_bytes(Style::Random, (i % 24) as usize, mix(i ^ t.a.1))).collect();
    let mut u = a.clone();
    u.union_merge(&b).map_err(fail)?;
    let mut v = b.clone();
    v.union_merge(&a).map_err(fail)?;
    if u.count_estimate() != v.count_estimate() {
        return Err(format!("the count of the union depends on the order: {} and {}", u.count_estimate(), v.count_estimate()));
    }
    let or = (zip(&pa.cache, &pb.cache, |x, y| x | y), zip(&pa.body, &pb.body, |x, y| x | y));
    let Some(pu) = bits(&u) else { return Ok(()) };
    if (&pu.cache, &pu.body) != (&or.0, &or.1) {
        return Err("the bits of the union are not the bits of both filters".into());
    }
    count_ok("the count of the union", &pu, &pu.body, u.count_estimate())?;
    for p in &probes {
        if (a.contains_bytes(p) || b.contains_bytes(p)) && !u.contains_bytes(p) {
            return Err(format!("{} was reported by one of the merged filters but is not by the union", short(p)));
        }
    }
    let and = (zip(&pa.cache, &pb.cache, |x, y| x & y), zip(&pa.body, &pb.body, |x, y| x & y));
    let (n, m) = (a.count_common_entries(&b).map_err(fail)?, b.count_common_entries(&a).map_err(fail)?);
    if n != m {
        return Err(format!("the number of common entries is not symmetric: {n} and {m}"));
    }
    count_ok("the number of common entries", &pa, &and.1, n as u64)?;
    if let Some(x) = inter_of(&a, &b, t.a.0[0]).map_err(fail)? {
        let Some(px) = bits(&x) else { return Ok(()) };
        if (&px.cache, &px.body) != (&and.0, &and.1) {
            return Err("the bits of the intersection are not the bits common to both filters".into());
        }
        count_ok("the count of the intersection", &px, &px.body, x.count_estimate())?;
        for p in &probes {
            if x.contains_bytes(p) != (a.contains_bytes(p) && b.contains_bytes(p)) {
                return Err(format!("{} is not in the intersection exactly when it is in both", short(p)));
            }
        }
    }
    if dump(&a) != da || dump(&b) != db {
        return Err("a filter that was merged into others changed".into());
    }
    let full = pu.estimate(&pu.body).is_none();
    ctx.label(if full { "saturated union" } else { "dense union" });
    ctx.nontrivial = pu.body.iter().any(|x| *x != 0);
    Ok(())
}

fn denses() -> BoxedStrategy<Dense> {
    let part = || {
        let d = prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => 1u8..6, 2 => Just(255u8), 2 => Just(254u8), 2 => 245u8..=253];
        (prop::collection::vec(d, 1..5), 0u64..1000)
    };
    let count = || prop_oneof![2 => 0u64..300, 1 => any::<u64>()];
    (prop_oneof![2 => spec(20_000.0), 1 => small_spec()], part(), part(), (count(), count())).prop_map(|(spec, a, b, counts)| Dense { spec, a, b, counts }).boxed()
}

/// Filters that must not be combined.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Differ {
    Version,
    Capacity,
    Fpp,
    Opt,
    /// same header, other number of hashes
    Hashes,
    /// same header, other number of buckets / bits
    Buckets,
    /// same header, other index cache size
    Cache,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    spec: Spec,
    differ: Differ,
    delta: i64,
    a: Content,
    b: Content,
    how: u8,
}

/// a filter that differs from `spec` in the given respect, None if that is not possible
fn other(m: &Mismatch) -> Option<(Spec, BloomFilter)> {
    let mut s = m.spec.clone();
    match m.differ {
        Differ::Version => {
            s.version = 3 - s.version;
            if s.version == 1 {
                s.opt = 0;
            }
            return Some((s.clone(), build(&s, &m.b)?.f));
        }
        Differ::Capacity => {
            s.cap = s.cap.checked_add_signed(m.delta)?;
            return (s.cap != m.spec.cap).then(|| build(&s, &m.b).map(|b| (s, b.f)))?;
        }
        Differ::Fpp => {
            // down to the smallest difference
            s.fpp = f64::from_bits((s.fpp.to_bits() as i64 - m.delta.abs()) as u64);
            if !(f64::MIN_POSITIVE..=1.0).contains(&s.fpp) || s.fpp == m.spec.fpp {
                return None;
            }
            return Some((s.clone(), build(&s, &m.b)?.f));
        }
        Differ::Opt => {
            if s.version == 1 {
                return None;
            }
            s.opt = (s.opt + 1 + (m.delta.unsigned_abs() % 3) as u8) % 4;
            return Some((s.clone(), build(&s, &m.b)?.f));
        }
        _ => {}
    }
    // crafted file: same parameters, other geometry
    let f = build(&s, &m.b)?.f;
    let p = parse(&dump(&f)).ok()?;
    let d = 1 + m.delta.unsigned_abs() % 3;
    let bytes = if s.version == 1 {
        let (mut k, mut bitsn) = (p.k, p.m);
        match m.differ {
            Differ::Hashes => k += d,
            Differ::Buckets => bitsn += d * if m.how % 2 == 0 { 1 } else { 64 },
            _ => return None,
        }
        let mut r = RefV1::with_geometry(s.cap, s.fpp, bitsn, k);
        r.data = p.data;
        r.bytes()
    } else {
        let (mut k, mut cache, mut nb) = (p.k, p.cache.len() as u64, p.body.len() as u64 / BUCKET as u64);
        match m.differ {
            Differ::Hashes => k += d,
            Differ::Buckets => nb += d,
            _ => {
                if cache == 0 {
                    cache = 8 << d
                } else {
                    cache <<= d
                }
            }
        }
        let mut r = RefV2::with_geometry(s.cap, s.fpp, s.opt, (k, cache, nb));
        r.n = p.count;
        r.data = p.data;
        r.bytes()
    };
    Some((s, load(&bytes).ok()?))
}

fn check_mismatch(m: &Mismatch, inter: bool, ctx: &mut Ctx) -> Verdict {
    let Some(a) = build(&m.spec, &m.a) else { return Ok(()) };
    let Some((_, b)) = other(m) else { return Ok(()) };
    let a = a.f;
    let (da, db) = (dump(&a), dump(&b));
    let what = format!("{:?}", m.differ);
    if !inter {
        for (x, y, dx, dy) in [(&a, &b, &da, &db), (&b, &a, &db, &da)] {
            if x.has_same_params(y) {
                return Err(format!("has_same_params holds although the filters differ ({what})"));
            }
            let mut u = x.clone();
            match u.union_merge(y) {
                Err(Error::Merge(_)) => {}
                Err(e) => return Err(format!("union of filters that differ ({what}) gave another error: {e}")),
                Ok(()) => return Err(format!("union of filters that differ ({what}) succeeded")),
            }
            if dump(&u) != *dx || dump(y) != *dy {
                return Err(format!("the refused union of filters that differ ({what}) changed one of them"));
            }
            match (u, y) {
                (BloomFilter::V1(mut u), BloomFilter::V1(y)) => {
                    if u.union_merge(y).is_ok() {
                        return Err(format!("v1 union of filters that differ ({what}) succeeded"));
                    }
                    if dump(&BloomFilter::V1(u)) != *dx {
                        return Err(format!("the refused v1 union of filters that differ ({what}) changed the filter"));
                    }
                }
                (BloomFilter::V2(mut u), BloomFilter::V2(y)) => {
                    if u.clone().union(y.clone()).is_ok() || u.union_merge(y).is_ok() {
                        return Err(format!("v2 union of filters that differ ({what}) succeeded"));
                    }
                    if dump(&BloomFilter::V2(u)) != *dx {
                        return Err(format!("the refused v2 union of filters that differ ({what}) changed the filter"));
                    }
                }
                _ => {}
            }
        }
    } else {
        for (x, y, dx, dy) in [(&a, &b, &da, &db), (&b, &a, &db, &da)] {
            if let Ok(n) = x.count_common_entries(y) {
                return Err(format!("common entries of filters that differ ({what}) were counted: {n}"));
            }
            match (x, y) {
                (BloomFilter::V1(x), BloomFilter::V1(y)) => {
                    if x.count_common_entries(y).is_ok() {
                        return Err(format!("v1 common entries of filters that differ ({what}) were counted"));
                    }
                }
                (BloomFilter::V2(x), BloomFilter::V2(y)) => {
                    if x.count_common_entries(y).is_ok() {
                        return Err(format!("v2 common entries of filters that differ ({what}) were counted"));
                    }
                    let mut u = x.clone();
                    if u.intersection_merge(y).is_ok() || x.clone().intersection(y.clone()).is_ok() {
                        return Err(format!("intersection of filters that differ ({what}) succeeded"));
                    }
                    if dump(&BloomFilter::V2(u)) != *dx {
                        return Err(format!("the refused intersection of filters that differ ({what}) changed the filter"));
                    }
                }
                _ => {}
            }
            if dump(x) != *dx || dump(y) != *dy {
                return Err(format!("a refused operation on filters that differ ({what}) changed one of them"));
            }
        }
    }
    ctx.label(format!("differ in {what}"));
    ctx.nontrivial = true;
    Ok(())
}

fn mismatch() -> BoxedStrategy<Mismatch> {
    (
        prop_oneof![2 => spec(30_000.0), 1 => small_spec()],
        prop::sample::select(vec![
            Differ::Version,
            Differ::Capacity,
            Differ::Fpp,
            Differ::Opt,
            Differ::Hashes,
            Differ::Buckets,
            Differ::Cache,
        ]),
        prop_oneof![2 => -2i64..=2, 1 => -100i64..=100, 1 => 1i64..=10_000],
        content(20),
        content(20),
        any::<u8>(),
    )
        .prop_map(|(mut spec, differ, delta, a, b, how)| {
            spec.cap = spec.cap.max(1);
            Mismatch { spec, differ, delta, a, b, how }
        })
        .boxed()
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "triples of filters with the same random parameters and overlapping generated contents: union through every interface against bitwise or, against inserting both sets, algebraic laws, count against the formula on the bits, operands untouched; pairs that differ in exactly one parameter or in crafted geometry must be refused unchanged; files with any density of bits up to all. Non-trivial: both merged filters hold values, or a mismatched pair was tried",
        suites: || {
            vec![
                suite("union", 24_000, 300_000, |t| if t == Tier::Quick { triple(40_000.0, 150) } else { triple(200_000.0, 600) }, check_union),
                suite("mismatch", 24_000, 300_000, |_| mismatch(), |m: &Mismatch, ctx: &mut Ctx| check_mismatch(m, false, ctx)),
                suite("dense", 6_000, 60_000, |_| denses(), check_dense),
                suite("large", 100, 1_500, |_| triple(3e6, 3000), check_union),
                suite_fixed("huge", 48, 240, huge, check_union),
                giant::suite(giant::What::Union),
            ]
        },
        processes: false,
    }
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "pairs of filters with the same random parameters and overlapping generated contents: intersection through both interfaces against bitwise and, and against membership in both for inserted values, other values and random probes; common count against the formula on the common bits and for symmetry; operands untouched; mismatched pairs refused; files with any density of bits up to all. Non-trivial: both filters hold values, or a mismatched pair was tried",
        suites: || {
            vec![
                suite("intersection", 24_000, 300_000, |t| if t == Tier::Quick { triple(40_000.0, 150) } else { triple(200_000.0, 600) }, check_inter),
                suite("mismatch", 24_000, 300_000, |_| mismatch(), |m: &Mismatch, ctx: &mut Ctx| check_mismatch(m, true, ctx)),
                suite("dense", 6_000, 60_000, |_| denses(), check_dense),
                suite("large", 100, 1_500, |_| triple(3e6, 3000), check_inter),
                suite_fixed("huge", 48, 240, huge, check_inter),
                giant::suite(giant::What::Common),
            ]
        },
        processes: false,
    }
}
