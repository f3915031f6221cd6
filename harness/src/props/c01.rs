//! No false negatives.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::Chunks;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Arc;

type Set = HashSet<Arc<Vec<u8>>>;

/// the values every filter has to contain
#[derive(Default)]
struct Must {
    sets: Vec<Set>,
    n: usize,
    merged: bool,
    reloaded: bool,
    after: bool,
}

fn missing(f: &BloomFilter, v: &[u8], via: u8, when: &str) -> Verdict {
    if contains_via(f, v, via) {
        Ok(())
    } else {
        Err(format!("{} was inserted but is not contained {when} (lookup via {})", short(v), via % VIAS))
    }
}

impl Must {
    fn all(&mut self, w: &World, slot: usize, when: &str) -> Verdict {
        for v in &self.sets[slot] {
            self.n += 1;
            missing(&w[slot], v, self.n as u8, when)?;
        }
        Ok(())
    }
}

impl Obs for Must {
    fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
        if insert_via(&mut w[slot], v, via).is_ok() {
            self.sets[slot].insert(Arc::new(v.to_vec()));
            self.n += 1;
            self.after |= self.merged || self.reloaded;
            missing(&w[slot], v, self.n as u8, "right after its insertion")?;
        } else if let Some(e) = self.sets[slot].iter().next() {
            missing(&w[slot], e, self.n as u8, "after a refused insertion")?;
        }
        Ok(())
    }
    fn fill(&mut self, w: &mut World, slot: usize, set: &KeySet, _: &mut Ctx) -> Verdict {
        if do_fill(&mut w[slot], set.iter().collect()).is_ok() {
            self.sets[slot].extend(set.iter().map(Arc::new));
        }
        self.all(w, slot, "after a bulk insertion")
    }
    fn clear(&mut self, w: &mut World, slot: usize, _: &mut Ctx) -> Verdict {
        clear(&mut w[slot]);
        self.sets[slot].clear();
        Ok(())
    }
    fn union(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        if do_union(w, dst, src, how).is_ok() {
            let other = self.sets[src].clone();
            self.merged |= !other.is_empty() && !self.sets[dst].is_empty() && src != dst;
            self.sets[dst].extend(other);
        }
        self.all(w, dst, "after a union")?;
        self.all(w, src, "in the other filter after a union")
    }
    fn intersect(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
        if let BloomFilter::V2(_) = w[dst] {
            if do_intersect(w, dst, src, how).is_ok() {
                let other = self.sets[src].clone();
                self.sets[dst].retain(|v| other.contains(v));
            }
        }
        self.all(w, dst, "after an intersection")
    }
    fn clone_to(&mut self, w: &mut World, dst: usize, src: usize, _: &mut Ctx) -> Verdict {
        w[dst] = w[src].clone();
        self.sets[dst] = self.sets[src].clone();
        self.all(w, dst, "in a clone")
    }
    fn reload(&mut self, w: &mut World, slot: usize, io: &Chunks, _: &mut Ctx) -> Verdict {
        do_reload(&mut w[slot], io)?;
        self.reloaded |= !self.sets[slot].is_empty();
        self.all(w, slot, "after saving and loading")
    }
}

fn check(h: &History, ctx: &mut Ctx) -> Verdict {
    let mut m = Must { sets: vec![Set::new(), Set::new(), Set::new()], ..Default::default() };
    let Some(w) = run(h, &mut m, ctx)? else { return Ok(()) };
    for s in 0..3 {
        ctx.count("values looked up at the end", m.sets[s].len() as u64);
        m.all(&w, s, "at the end of the history")?;
    }
    let n: usize = m.sets.iter().map(|s| s.len()).sum();
    ctx.nontrivial = n >= 2;
    if m.merged {
        ctx.label("merged");
    }
    if m.after {
        ctx.label("inserted after merge or reload");
    }
    Ok(())
}

/// One large filter filled up to its capacity, then checked entirely, also after a save and load.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    spec: Spec,
    set: KeySet,
    fill: bool,
    reload: bool,
}

fn bulk(max_bytes: f64, max_n: u64) -> BoxedStrategy<Bulk> {
    (
        version_opt(),
        prop_oneof![3 => (1.0f64..=6.4).prop_map(|e| 10f64.powf(e) as u64), 1 => (10u32..=21, -1i64..=1).prop_map(|(e, d)| ((1i64 << e) + d) as u64)],
        fpp(),
        keyset(0),
        any::<bool>(),
        any::<bool>(),
        1usize..=4,
    )
        .prop_map(move |((version, opt), cap, fpp, mut set, fill, reload, part)| {
            let spec = Spec { version, opt, cap, fpp }.bounded(max_bytes);
            let work = max_n as f64 / (1.0 + spec.approx_k() / 20.0);
            set.n = (spec.cap as usize).min(work as usize) / part + 1;
            set.len = set.len.max(6);
            Bulk { spec, set, fill, reload }
        })
        .boxed()
}

fn check_bulk(b: &Bulk, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &b.spec);
    let Ok(mut f) = b.spec.create() else { return Ok(()) };
    let mut inserted = vec![];
    if b.fill {
        let vals: Vec<Vec<u8>> = b.set.iter().collect();
        if do_fill(&mut f, vals.clone()).is_ok() {
            inserted = vals;
        }
    } else {
        for (i, v) in b.set.iter().enumerate() {
            if insert_via(&mut f, &v, i as u8).is_ok() {
                inserted.push(v);
            }
        }
    }
    for (i, v) in inserted.iter().enumerate() {
        missing(&f, v, i as u8, "after all insertions")?;
    }
    if b.reload {
        let f = load(&dump(&f))?;
        for (i, v) in inserted.iter().enumerate() {
            missing(&f, v, i as u8, "after saving and loading")?;
        }
    }
    ctx.count("values in large filters", inserted.len() as u64);
    ctx.nontrivial = inserted.len() >= 2;
    Ok(())
}

/// Values of many megabytes.
fn check_long(c: &(Spec, Vec<Key>), ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.0);
    let Ok(mut f) = c.0.create() else { return Ok(()) };
    let mut inserted = vec![];
    for (i, k) in c.1.iter().enumerate() {
        let v = k.bytes();
        if insert_via(&mut f, &v, i as u8).is_ok() {
            inserted.push(v);
        }
    }
    let g = load(&dump(&f))?;
    for (i, v) in inserted.iter().enumerate() {
        missing(&f, v, i as u8 / 2, "after all insertions")?;
        missing(&g, v, i as u8, "after saving and loading")?;
    }
    ctx.nontrivial = !inserted.is_empty();
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "random histories (insert through 8 interfaces, bulk fill, refused inserts, union, intersection, clone, clear, save+load with arbitrary chunking) over three filters of random version/opt/capacity/fpp, large filters filled up to capacity, and values of up to 50 MB; every accepted value is looked up after each structural operation and at the end. Non-trivial: at least two values had to be contained at the end",
        suites: || {
            vec![
                suite(
                    "histories",
                    24_000,
                    400_000,
                    |_| history(prop_oneof![3 => spec(60_000.0), 1 => small_spec()].boxed(), ALL, 25),
                    check,
                ),
                suite("large", 600, 8_000, |t| bulk(if t == Tier::Quick { 4e6 } else { 3e7 }, if t == Tier::Quick { 40_000 } else { 400_000 }), check_bulk),
                suite_fixed("long values", 160, 1_200, |_| (spec(20_000.0), prop::collection::vec(big_key(), 1..3)).boxed(), check_long),
                giant::suite(giant::What::NoFalseNegatives),
            ]
        },
        processes: false,
    }
}
