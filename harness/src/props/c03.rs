//! Capacity enforcement.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::Chunks;
use poppy_filters::{BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Default)]
struct Cap {
    /// what the filters were asked to hold
    cap: u64,
    refused: u64,
    present_while_full: u64,
    above: u64,
}

fn full(f: &BloomFilter, cap: u64) -> Verdict {
    let c = f.count_estimate();
    if f.is_full() != (c >= cap) {
        return Err(format!("is_full is {} with an estimated count of {c} and a capacity of {cap}", f.is_full()));
    }
    let inner = match f {
        BloomFilter::V1(b) => b.is_full(),
        BloomFilter::V2(b) => b.is_full(),
    };
    if inner != (c >= cap) {
        return Err(format!("is_full of the inner filter is {inner} with count {c}, capacity {cap}"));
    }
    Ok(())
}

impl Cap {
    fn one(&mut self, f: &mut BloomFilter, v: &[u8], via: u8) -> Verdict {
        let (cap, count) = (self.cap, f.count_estimate());
        let contained = f.contains_bytes(v);
        let must_refuse = cap == 0 || (!contained && count >= cap);
        let before = must_refuse.then(|| dump(f));
        let res = insert_via(f, v, via);
        match (must_refuse, res) {
            (true, Err(Error::TooManyEntries)) => {
                self.refused += 1;
                if count > cap {
                    self.above += 1;
                }
                if before.as_deref() != Some(&dump(f)[..]) {
                    return Err(format!("the refused insertion of {} changed the filter", short(v)));
                }
            }
            (true, Err(e)) => return Err(format!("insertion of {} refused with another error: {e}", short(v))),
            (true, Ok(r)) => {
                return Err(format!(
                    "insertion of {} (contained before: {contained}) into a filter with count {count} and capacity {cap} succeeded with {r}",
                    short(v)
                ))
            }
            (false, Ok(_)) => {
                if count >= cap {
                    self.present_while_full += 1;
                }
            }
            (false, Err(e)) => {
                return Err(format!(
                    "insertion of {} (contained before: {contained}) into a filter with count {count} and capacity {cap} failed: {e}",
                    short(v)
                ))
            }
        }
        full(f, self.cap)
    }
}

impl Obs for Cap {
    fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
        self.one(&mut w[slot], v, via)
    }
    fn fill(&mut self, w: &mut World, slot: usize, set: &KeySet, _: &mut Ctx) -> Verdict {
        // bulk insertion fails exactly when inserting one by one fails
        let mut g = w[slot].clone();
        let mut expect = true;
        for v in set.iter() {
            let (cap, count) = (self.cap, g.count_estimate());
            if cap == 0 || (!g.contains_bytes(&v) && count >= cap) {
                expect = false;
                break;
            }
            let _ = g.insert_bytes(&v);
        }
        let r = do_fill(&mut w[slot], set.iter().collect());
        match (expect, r) {
            (true, Ok(())) | (false, Err(Error::TooManyEntries)) => {}
            (e, r) => {
                return Err(format!(
                    "bulk insertion of {} values {} but gave {r:?}",
                    set.n,
                    if e { "fits" } else { "does not fit" }
                ))
            }
        }
        if !expect {
            self.refused += 1;
        }
        full(&w[slot], self.cap)
    }
    fn clear(&mut self, w: &mut World, slot: usize, _: &mut Ctx) -> Verdict {
        clear(&mut w[slot]);
        full(&w[slot], self.cap)
    }
    fn union(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        let _ = do_union(w, dst, src, how);
        full(&w[dst], self.cap)
    }
    fn intersect(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        let _ = do_intersect(w, dst, src, how);
        full(&w[dst], self.cap)
    }
    fn reload(&mut self, w: &mut World, slot: usize, io: &Chunks, _: &mut Ctx) -> Verdict {
        let _ = do_reload(&mut w[slot], io);
        full(&w[slot], self.cap)
    }
}

fn check(h: &History, ctx: &mut Ctx) -> Verdict {
    let mut c = Cap { cap: h.spec.cap, ..Default::default() };
    let Some(w) = run(h, &mut c, ctx)? else { return Ok(()) };
    for f in &w {
        full(f, h.spec.cap)?;
    }
    ctx.count("refused insertions", c.refused);
    ctx.count("refused above capacity", c.above);
    ctx.count("present values inserted while full", c.present_while_full);
    ctx.nontrivial = c.refused > 0 && (h.spec.cap > 0 || h.ops.len() > 3);
    Ok(())
}

/// Larger filters filled past their capacity with distinct and repeated values.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Over {
    spec: Spec,
    seed: u64,
    extra: usize,
    via: u8,
    reload_at: usize,
}

fn check_over(o: &Over, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &o.spec);
    let Ok(mut f) = o.spec.create() else { return Ok(()) };
    let cap = o.spec.cap as usize;
    let mut c = Cap { cap: o.spec.cap, ..Default::default() };
    let mut n = 0usize;
    let value = |n: usize| gen_bytes(Style::Random, 9 + n % 24, o.seed.wrapping_add(n as u64));
    while (f.count_estimate() as usize) < cap && n < cap * 2 + 10 {
        c.one(&mut f, &value(n), o.via.wrapping_add(n as u8))?;
        n += 1;
        if n == o.reload_at {
            f = load(&dump(&f))?;
        }
    }
    for e in 0..o.extra {
        c.one(&mut f, &value(n + e), o.via.wrapping_add(e as u8))?;
        // a value that is in
        c.one(&mut f, &value(e % n.max(1)), o.via.wrapping_add(e as u8))?;
    }
    ctx.count("refused insertions", c.refused);
    ctx.nontrivial = c.refused > 0;
    Ok(())
}

/// Filters from files, with any count.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Counted {
    spec: Spec,
    set: KeySet,
    more: KeySet,
    count: u64,
    via: u8,
}

fn check_counted(c: &Counted, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    for v in c.set.iter() {
        let _ = f.insert_bytes(v);
    }
    let mut f = with_count(&f, c.count)?;
    full(&f, c.spec.cap)?;
    let mut cap = Cap { cap: c.spec.cap, ..Default::default() };
    for (i, v) in c.more.iter().chain(c.set.iter()).enumerate() {
        cap.one(&mut f, &v, c.via.wrapping_add(i as u8))?;
    }
    ctx.count("refused insertions", cap.refused);
    ctx.label(if c.count > u32::MAX as u64 { "count beyond 32 bits" } else { "count within 32 bits" });
    ctx.nontrivial = cap.refused > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "histories over small and medium filters that reach, exceed (by union), stay at and leave (clear, reload) the capacity, larger filters filled past capacity, and filters from files with any count up to 2^64-1. Every insertion is predicted from contains, count and the capacity asked for; refused ones must leave the serialized filter unchanged. Non-trivial: at least one insertion had to be refused",
        suites: || {
            let m = Mix { fill_up: 5, merge: 5, clear: 1, reload: 1, data: 1, bulk: 200 };
            vec![
                suite(
                    "histories",
                    60_000,
                    800_000,
                    move |_| history(prop_oneof![4 => small_spec(), 1 => spec(30_000.0)].boxed(), m, 22),
                    check,
                ),
                suite(
                    "filled up",
                    1_200,
                    12_000,
                    |t| {
                        let max = if t == Tier::Quick { 200_000.0 } else { 3e6 };
                        let top = if t == Tier::Quick { 4.3 } else { 5.6 };
                        (
                            version_opt(),
                            prop_oneof![2 => (1.0f64..=top).prop_map(|e| 10f64.powf(e) as u64), 1 => (3u32..=13, -1i64..=1).prop_map(|(e, d)| ((1i64 << e) + d) as u64)],
                            prop_oneof![3 => prop::sample::select(vec![0.1, 0.01, 0.001, 1e-4, 1e-6]), 1 => fpp()],
                            any::<u64>(),
                            1usize..12,
                            any::<u8>(),
                            0usize..3000,
                        )
                            .prop_map(move |((version, opt), cap, fpp, seed, extra, via, reload_at)| Over {
                                spec: Spec { version, opt, cap, fpp }.bounded(max),
                                seed,
                                extra,
                                via,
                                reload_at,
                            })
                            .boxed()
                    },
                    check_over,
                ),
                suite(
                    "any count",
                    4_000,
                    60_000,
                    |_| {
                        (prop_oneof![2 => small_spec(), 1 => spec(20_000.0)], keyset(40), keyset(20), any_count(), any::<u8>())
                            .prop_map(|(spec, set, more, count, via)| Counted { spec, set, more, count, via })
                            .boxed()
                    },
                    check_counted,
                ),
                // counts beyond 16 bits
                suite_fixed(
                    "filled up large",
                    160,
                    1_600,
                    |t| {
                        let top = if t == Tier::Quick { 5.3 } else { 6.0 };
                        (
                            version_opt(),
                            prop_oneof![2 => (4.7f64..=top).prop_map(|e| 10f64.powf(e) as u64), 1 => 65_534u64..=65_538, 1 => 131_070u64..=131_074],
                            prop::sample::select(vec![0.3, 0.1, 0.05, 0.01]),
                            any::<u64>(),
                            1usize..12,
                            any::<u8>(),
                            0usize..200_000,
                        )
                            .prop_map(|((version, opt), cap, fpp, seed, extra, via, reload_at)| Over {
                                spec: Spec { version, opt, cap, fpp },
                                seed,
                                extra,
                                via,
                                reload_at,
                            })
                            .boxed()
                    },
                    check_over,
                ),
                giant::suite(giant::What::Capacity),
            ]
        },
        processes: false,
    }
}
