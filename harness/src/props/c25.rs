//! The bits depend on the set of inserted values only.

use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::{do_fill, label_spec};
use crate::model::parse;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    sets: Vec<KeySet>,
    keys: Vec<Key>,
    seed: u64,
    /// number of filters the values are distributed over
    parts: u8,
    via: u8,
}

/// serialized form without the count, which depends on the order where values collide
fn bits(f: &BloomFilter) -> Option<(Vec<u8>, Vec<u8>)> {
    parse(&dump(f)).ok().map(|p| (p.cache, p.body))
}

fn shuffled(v: &[Vec<u8>], seed: u64) -> Vec<Vec<u8>> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        v.swap(i, mix(seed ^ i as u64) as usize % (i + 1));
    }
    v
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut vals: Vec<Vec<u8>> = c.keys.iter().map(|k| k.bytes()).collect();
    for s in &c.sets {
        vals.extend(s.iter());
    }
    // room for everything, however often: refusals are the business of C03
    let spec = Spec { cap: c.spec.cap.max(vals.len() as u64 + 1), ..c.spec.clone() }.bounded(4e6);
    if spec.cap <= vals.len() as u64 {
        return Ok(());
    }
    label_spec(ctx, &spec);
    let Ok(mut f) = spec.create() else { return Ok(()) };
    let mut last = vec![];
    for (i, v) in vals.iter().enumerate() {
        f.insert_bytes(v).map_err(|e| format!("insertion {i} into a filter with room failed: {e}"))?;
        // bits are never taken back
        if i % 16 == 0 || i < 8 {
            let Some((c1, b1)) = bits(&f) else {
                ctx.label("layout not recognised");
                return Ok(());
            };
            let now: Vec<u8> = c1.into_iter().chain(b1).collect();
            if last.iter().zip(&now).any(|(x, y): (&u8, &u8)| x & !y != 0) {
                return Err(format!("inserting {} takes back a bit", short(v)));
            }
            last = now;
        }
    }
    let want = bits(&f);
    let same = |g: &BloomFilter, how: &str| -> Verdict {
        if bits(g) != want {
            return Err(format!("{} values {how} give other bits than one after the other", vals.len()));
        }
        Ok(())
    };
    let fail = |e: poppy_filters::Error| format!("insertion into a filter with room failed: {e}");
    // another order, other interfaces
    let mut g = spec.create()?;
    for (i, v) in shuffled(&vals, c.seed).iter().enumerate() {
        insert_via(&mut g, v, c.via.wrapping_add(i as u8)).map_err(fail)?;
    }
    same(&g, "in another order and through other interfaces")?;
    // again: nothing changes
    let d = dump(&g);
    for (i, v) in shuffled(&vals, !c.seed).iter().enumerate() {
        if insert_via(&mut g, v, c.via.wrapping_add(i as u8)).map_err(fail)? {
            return Err(format!("{} is new when everything is inserted a second time", short(v)));
        }
    }
    if dump(&g) != d {
        return Err("inserting everything a second time changes the filter".into());
    }
    // in bulk, with everything twice
    let mut g = spec.create()?;
    let mut twice = shuffled(&vals, c.seed ^ 1);
    twice.extend(shuffled(&vals, c.seed ^ 2));
    do_fill(&mut g, twice).map_err(fail)?;
    same(&g, "in bulk and twice")?;
    // in bulk and in order
    let mut sorted = vals.clone();
    sorted.sort();
    for v in [sorted, vals.clone()] {
        let mut g = spec.create()?;
        do_fill(&mut g, v).map_err(fail)?;
        same(&g, "in bulk")?;
    }
    // bits set by others do not matter: a filter that is saved and loaded in between
    let mut g = spec.create()?;
    for (i, v) in shuffled(&vals, c.seed ^ 3).iter().enumerate() {
        g.insert_bytes(v).map_err(fail)?;
        if mix(c.seed ^ i as u64) % (vals.len() as u64 / 3 + 1) == 0 && i < 2000 {
            g = load(&dump(&g))?;
        }
    }
    same(&g, "with saving and loading in between")?;
    // distributed over filters and merged in any order
    let n = c.parts as usize % 4 + 2;
    let mut parts: Vec<BloomFilter> = (0..n).map(|_| spec.create()).collect::<Result<_, _>>()?;
    for (i, v) in vals.iter().enumerate() {
        parts[mix(c.seed ^ 5 ^ i as u64) as usize % n].insert_bytes(v).map_err(fail)?;
    }
    let first = c.seed as usize % n;
    let mut g = parts[first].clone();
    for i in 1..n {
        g.union_merge(&parts[(first + i) % n]).map_err(|e| format!("union of filters with the same parameters failed: {e}"))?;
    }
    same(&g, "distributed over filters that are merged")?;
    ctx.nontrivial = vals.len() >= 2;
    ctx.count("values", vals.len() as u64);
    Ok(())
}

fn case(max: f64, n: usize) -> BoxedStrategy<Case> {
    (prop_oneof![3 => spec(max), 1 => small_spec()], prop::collection::vec(keyset(n), 0..3), prop::collection::vec(key(), 0..12), any::<u64>(), any::<u8>(), any::<u8>())
        .prop_map(|(mut spec, sets, keys, seed, parts, via)| {
            spec.fpp = spec.fpp.max(1e-15);
            Case { spec, sets, keys, seed, parts, via }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "generated sets of values in filters with room for them: one by one, shuffled through other interfaces, in bulk (sorted, or with repetitions), with saves and loads in between, distributed over 2 to 5 filters merged in any order; all must end with the same bits, no insertion may take back a bit, and a second round changes nothing. Non-trivial: at least two values",
        suites: || vec![suite("orders", 6_000, 90_000, |_| case(30_000.0, 300), check), suite("large", 60, 900, |_| case(1e6, 20_000), check)],
        processes: false,
    }
}
