//! Clear.

use super::c05::{lockstep, same_meta};
use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    before: History,
    data: Option<Blob>,
    /// 0 generic, 1 version specific
    via: u8,
    times: u8,
    after: Vec<Op>,
}

/// remembers what was inserted
struct Vals(Vec<Vec<u8>>);
impl Obs for Vals {
    fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
        if insert_via(&mut w[slot], v, via).is_ok() && self.0.len() < 3000 {
            self.0.push(v.to_vec());
        }
        Ok(())
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let mut vals = Vals(vec![]);
    let Some(mut w) = run(&c.before, &mut vals, ctx)? else { return Ok(()) };
    let Ok(mut fresh) = c.before.spec.create() else { return Ok(()) };
    if let Some(d) = &c.data {
        set_data(&mut w[0], d.bytes());
    }
    let had = w[0].count_estimate();
    for _ in 0..=c.times % 2 {
        match (c.via % 2, &mut w[0]) {
            (1, poppy_filters::BloomFilter::V1(b)) => b.clear(),
            (1, poppy_filters::BloomFilter::V2(b)) => b.clear(),
            (_, f) => f.clear(),
        }
    }
    if let Some(d) = &c.data {
        if w[0].data() != d.bytes() {
            return Err("clear changed the attached data".into());
        }
    }
    let data = w[0].data().to_vec();
    set_data(&mut fresh, data);
    if w[0].count_estimate() != 0 {
        return Err(format!("the count after clear is {}", w[0].count_estimate()));
    }
    for (i, v) in vals.0.iter().enumerate() {
        if contains_via(&w[0], v, i as u8) {
            return Err(format!("the cleared filter contains {}", short(v)));
        }
    }
    same_meta(&fresh, &w[0]).map_err(|e| format!("cleared against new filter: {e}"))?;
    if dump(&w[0]) != dump(&fresh) {
        return Err("a cleared filter is saved differently than a new one".into());
    }
    if !w[0].has_same_params(&fresh) {
        return Err("a cleared filter does not have the parameters of a new one".into());
    }
    let mut w2 = w.clone();
    w2[0] = fresh;
    for op in &c.after {
        lockstep(&mut w, &mut w2, op).map_err(|e| format!("after clear: {e}"))?;
    }
    // what was inserted before, again
    for v in vals.0.iter().take(50) {
        let (a, b) = (w[0].insert_bytes(v).map_err(|e| e.to_string()), w2[0].insert_bytes(v).map_err(|e| e.to_string()));
        if a != b {
            return Err(format!("inserting {} gives {a:?} in the cleared and {b:?} in the new filter", short(v)));
        }
    }
    for i in 0..3 {
        if dump(&w[i]) != dump(&w2[i]) {
            return Err("cleared and new filter differ after the same operations".into());
        }
    }
    ctx.nontrivial = had > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a history over three filters, then clear through either interface; the cleared filter must contain nothing inserted, equal a new filter with the same data byte for byte, and give the same results under a further history run in lockstep. Non-trivial: the filter held elements before clear",
        suites: || {
            let case = |max: f64| {
                (
                    history(prop_oneof![3 => spec(max), 1 => small_spec()].boxed(), ALL, 12),
                    prop::option::of(blob()),
                    any::<u8>(),
                    any::<u8>(),
                    ops(ALL, 8),
                )
                    .prop_map(|(before, data, via, times, after)| Case { before, data, via, times, after })
                    .boxed()
            };
            vec![
                suite("clear", 30_000, 500_000, move |_| case(30_000.0), check),
                suite("large", 200, 3_000, move |_| case(1e6), check),
                giant::suite(giant::What::Clear),
            ]
        },
        processes: false,
    }
}
