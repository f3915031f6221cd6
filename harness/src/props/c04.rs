//! Insert results and counts.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::Chunks;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

struct Count {
    /// inserts that returned true since creation, None after a merge
    n: Vec<Option<u64>>,
    new: u64,
    again: u64,
    step: u64,
    seen: Vec<Vec<u8>>,
}

impl Count {
    fn agree(&self, w: &World, slot: usize, when: &str) -> Verdict {
        match self.n[slot] {
            Some(n) if n != w[slot].count_estimate() => Err(format!(
                "{n} insertions returned true {when} but the count is {}",
                w[slot].count_estimate()
            )),
            _ => Ok(()),
        }
    }
}

/// the single step rule, independent of what happened before
fn one(f: &mut BloomFilter, v: &[u8], via: u8, deep: bool) -> Result<Option<bool>, String> {
    let contained = contains_via(f, v, via);
    let count = f.count_estimate();
    let before = (contained && deep).then(|| dump(f));
    let r = insert_via(f, v, via);
    let after = f.count_estimate();
    match r {
        Ok(new) => {
            if new == contained {
                return Err(format!(
                    "insertion of {} returned {new} although it was {}contained before",
                    short(v),
                    if contained { "" } else { "not " }
                ));
            }
            // a count of u64::MAX, the estimate for saturated bits, cannot grow
            if after != count.wrapping_add(new as u64) {
                return Err(format!("insertion of {} returned {new} and the count went from {count} to {after}", short(v)));
            }
            if let Some(b) = before {
                if b != dump(f) {
                    return Err(format!("inserting the contained value {} changed the filter", short(v)));
                }
            }
            Ok(Some(new))
        }
        Err(_) => Ok(None),
    }
}

impl Obs for Count {
    fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
        self.step += 1;
        let deep = self.step % 8 == 0 || self.step < 30;
        match one(&mut w[slot], v, via, deep)? {
            Some(true) => {
                self.new += 1;
                self.n[slot] = self.n[slot].map(|n| n + 1);
                // right again: nothing happens
                if self.step % 4 == 0 && one(&mut w[slot], v, via.wrapping_add(1), deep)? == Some(true) {
                    return Err(format!("inserting {} twice in a row returned true twice", short(v)));
                }
            }
            Some(false) => self.again += 1,
            None => {}
        }
        // values met before come again, in whatever filter
        if self.seen.len() < 64 {
            self.seen.push(v.to_vec());
        } else {
            let at = self.step as usize * 7 % 64;
            self.seen[at] = v.to_vec();
        }
        if self.step % 3 == 0 {
            let old = self.seen[self.step as usize * 5 % self.seen.len()].clone();
            match one(&mut w[slot], &old, via, deep)? {
                Some(true) => self.n[slot] = self.n[slot].map(|n| n + 1),
                Some(false) => self.again += 1,
                None => {}
            }
        }
        self.agree(w, slot, "so far")
    }
    fn fill(&mut self, w: &mut World, slot: usize, set: &KeySet, _: &mut Ctx) -> Verdict {
        let mut g = w[slot].clone();
        let mut ok = true;
        for v in set.iter() {
            match g.insert_bytes(&v) {
                Ok(new) => self.n[slot] = self.n[slot].map(|n| n + new as u64),
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
        let r = do_fill(&mut w[slot], set.iter().collect());
        if r.is_ok() != ok {
            return Err(format!("bulk insertion gave {r:?}, inserting one by one {}", if ok { "succeeded" } else { "failed" }));
        }
        if dump(&g) != dump(&w[slot]) {
            return Err("bulk insertion gives another filter than inserting one by one".into());
        }
        self.agree(w, slot, "including a bulk insertion")
    }
    fn clear(&mut self, w: &mut World, slot: usize, _: &mut Ctx) -> Verdict {
        clear(&mut w[slot]);
        self.n[slot] = Some(0);
        self.agree(w, slot, "after a clear")
    }
    fn union(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        if do_union(w, dst, src, how).is_ok() {
            self.n[dst] = None;
        }
        Ok(())
    }
    fn intersect(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        if do_intersect(w, dst, src, how).is_ok() {
            self.n[dst] = None;
        }
        Ok(())
    }
    fn clone_to(&mut self, w: &mut World, dst: usize, src: usize, _: &mut Ctx) -> Verdict {
        w[dst] = w[src].clone();
        self.n[dst] = self.n[src];
        self.agree(w, dst, "in the cloned filter")
    }
    fn reload(&mut self, w: &mut World, slot: usize, io: &Chunks, _: &mut Ctx) -> Verdict {
        let _ = do_reload(&mut w[slot], io);
        self.agree(w, slot, "before saving and loading")
    }
}

fn check(h: &History, ctx: &mut Ctx) -> Verdict {
    let mut c = Count { n: vec![Some(0); 3], new: 0, again: 0, step: 0, seen: vec![] };
    run(h, &mut c, ctx)?;
    ctx.count("insertions that returned true", c.new);
    ctx.count("insertions that returned false", c.again);
    ctx.nontrivial = c.new >= 2 && c.again >= 1;
    Ok(())
}

/// Many values, some of them several times, in a filter that holds tens of thousands.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    spec: Spec,
    seed: u64,
    n: usize,
    /// every so many values an earlier one comes again
    back: usize,
    reload_at: usize,
    via: u8,
}

fn check_long(c: &Long, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    let value = |n: usize| gen_bytes(Style::Random, 4 + n % 30, c.seed.wrapping_add(n as u64));
    let (mut new, mut again) = (0u64, 0u64);
    for i in 0..c.n {
        let via = c.via.wrapping_add(i as u8);
        match one(&mut f, &value(i), via, false)? {
            Some(true) => new += 1,
            Some(false) => again += 1,
            None => {}
        }
        if i % c.back == 0 {
            let old = mix(c.seed ^ i as u64) as usize % (i + 1);
            match one(&mut f, &value(old), via, i % 10_000 == 0)? {
                Some(true) => new += 1,
                Some(false) => again += 1,
                None => {}
            }
        }
        if i == c.reload_at {
            f = load(&dump(&f))?;
        }
        if f.count_estimate() != new {
            return Err(format!("{new} insertions returned true so far but the count is {}", f.count_estimate()));
        }
    }
    // all of it in bulk
    if let Ok(mut g) = c.spec.create() {
        if do_fill(&mut g, (0..c.n).map(value).collect()).is_ok() {
            let n = g.count_estimate();
            if n > new || (n < new && c.back > c.n) {
                return Err(format!("bulk insertion of {} values gives a count of {n}, inserting them one by one {new}", c.n));
            }
        }
    }
    ctx.count("insertions that returned true", new);
    ctx.count("insertions that returned false", again);
    ctx.nontrivial = new >= 2 && again >= 1;
    Ok(())
}

fn long(t: Tier) -> BoxedStrategy<Long> {
    let top = if t == Tier::Quick { 5.2 } else { 6.0 };
    (
        version_opt(),
        (4.6f64..=top).prop_map(|e| 10f64.powf(e) as u64),
        prop::sample::select(vec![0.5, 0.3, 0.1, 0.01, 0.001]),
        any::<u64>(),
        prop::sample::select(vec![2usize, 3, 7, 50]),
        0usize..200_000,
        any::<u8>(),
    )
        .prop_map(|((version, opt), cap, fpp, seed, back, reload_at, via)| Long {
            spec: Spec { version, opt, cap, fpp }.bounded(4e6),
            seed,
            n: (cap as usize * 11 / 10).min(1_200_000),
            back,
            reload_at,
            via,
        })
        .boxed()
}

/// Filters from files, with any count.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Counted {
    spec: Spec,
    set: KeySet,
    more: KeySet,
    count: u64,
    via: u8,
}

fn check_counted(c: &Counted, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    for v in c.set.iter() {
        let _ = f.insert_bytes(v);
    }
    let mut f = with_count(&f, c.count)?;
    let (mut new, mut again) = (0u64, 0u64);
    for (i, v) in c.more.iter().chain(c.set.iter()).enumerate() {
        match one(&mut f, &v, c.via.wrapping_add(i as u8), i % 4 == 0)? {
            Some(true) => new += 1,
            Some(false) => again += 1,
            None => {}
        }
    }
    if f.count_estimate() != c.count.wrapping_add(new) {
        return Err(format!("{new} insertions returned true, the count went from {} to {}", c.count, f.count_estimate()));
    }
    ctx.count("insertions that returned true", new);
    ctx.count("insertions that returned false", again);
    ctx.nontrivial = again >= 1;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "histories with repeated and colliding values (loose filters, few distinct short values, refilling); each insertion is compared with the answer of contains just before and with the change of the count; a shadow counter follows every filter until it is merged; bulk insertion is compared with one-by-one insertion on a clone; filters from files with any count up to 2^64-1. Non-trivial: at least two insertions of new and one of already contained values (any count: one of contained values)",
        suites: || {
            let m = Mix { fill_up: 1, merge: 1, clear: 1, reload: 1, data: 1, bulk: 400 };
            let none = Mix { merge: 0, ..m };
            vec![
                suite(
                    "histories",
                    50_000,
                    600_000,
                    move |_| {
                        let s = prop_oneof![2 => spec(40_000.0), 1 => small_spec()].boxed();
                        prop_oneof![2 => history(s.clone(), none, 22), 1 => history(s, m, 22)].boxed()
                    },
                    check,
                ),
                // crowded filters, where most values collide with some others
                suite(
                    "crowded",
                    4_000,
                    60_000,
                    move |_| {
                        let s = (
                            version_opt(),
                            prop_oneof![1 => 2u64..=200, 2 => 200u64..=4000],
                            prop::sample::select(vec![1.0, 0.99, 0.9, 0.7, 0.5, 0.3, 0.1]),
                        )
                            .prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp })
                            .boxed();
                        history(s, Mix { fill_up: 4, bulk: 3000, ..none }, 8)
                    },
                    check,
                ),
                suite(
                    "any count",
                    4_000,
                    60_000,
                    |_| {
                        (prop_oneof![1 => small_spec(), 1 => spec(20_000.0)], keyset(40), keyset(20), any_count(), any::<u8>())
                            .prop_map(|(spec, set, more, count, via)| Counted { spec, set, more, count, via })
                            .boxed()
                    },
                    check_counted,
                ),
                suite_fixed("long", 160, 1_600, long, check_long),
                giant::suite(giant::What::Count),
            ]
        },
        processes: false,
    }
}
