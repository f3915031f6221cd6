//! Histories: operations on three filters with the same parameters.

use crate::engine::{Ctx, Verdict};
use crate::gens::*;
use crate::io::*;
use poppy_filters::{BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Insert { slot: u8, key: Key, via: u8 },
    InsertMany { slot: u8, set: KeySet, via: u8 },
    Fill { slot: u8, set: KeySet },
    /// insert distinct values until the filter says it is full, then some more
    FillUp { slot: u8, seed: u64, extra: u8 },
    Contains { slot: u8, key: Key, via: u8 },
    Clear { slot: u8 },
    Union { dst: u8, src: u8, how: u8 },
    Intersect { dst: u8, src: u8, how: u8 },
    Clone { dst: u8, src: u8 },
    Reload { slot: u8, io: Chunks },
    SetData { slot: u8, data: Blob },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct History {
    pub spec: Spec,
    pub ops: Vec<Op>,
}

/// which operations a history may have
#[derive(Clone, Copy)]
pub struct Mix {
    pub merge: u32,
    pub clear: u32,
    pub reload: u32,
    pub data: u32,
    pub fill_up: u32,
    pub bulk: usize,
}

pub const ALL: Mix = Mix { merge: 4, clear: 1, reload: 2, data: 1, fill_up: 1, bulk: 1000 };

pub fn op(m: Mix) -> BoxedStrategy<Op> {
    let s = || 0u8..3;
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (14, (s(), key(), 0..VIAS).prop_map(|(slot, key, via)| Op::Insert { slot, key, via }).boxed()),
        (
            4,
            (s(), keyset(m.bulk), 0..VIAS).prop_map(|(slot, set, via)| Op::InsertMany { slot, set, via }).boxed(),
        ),
        (2, (s(), keyset(m.bulk.min(300))).prop_map(|(slot, set)| Op::Fill { slot, set }).boxed()),
        (3, (s(), key(), 0..VIAS).prop_map(|(slot, key, via)| Op::Contains { slot, key, via }).boxed()),
        (1, (s(), s()).prop_map(|(dst, src)| Op::Clone { dst, src }).boxed()),
    ];
    if m.merge > 0 {
        v.push((m.merge, (s(), s(), 0u8..3).prop_map(|(dst, src, how)| Op::Union { dst, src, how }).boxed()));
        v.push((
            m.merge.div_ceil(3),
            (s(), s(), 0u8..2).prop_map(|(dst, src, how)| Op::Intersect { dst, src, how }).boxed(),
        ));
    }
    if m.clear > 0 {
        v.push((m.clear, s().prop_map(|slot| Op::Clear { slot }).boxed()));
    }
    if m.reload > 0 {
        v.push((m.reload, (s(), chunks()).prop_map(|(slot, io)| Op::Reload { slot, io }).boxed()));
    }
    if m.data > 0 {
        v.push((m.data, (s(), blob()).prop_map(|(slot, data)| Op::SetData { slot, data }).boxed()));
    }
    if m.fill_up > 0 {
        v.push((
            m.fill_up,
            (s(), any::<u64>(), 0u8..6).prop_map(|(slot, seed, extra)| Op::FillUp { slot, seed, extra }).boxed(),
        ));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}

pub fn ops(m: Mix, max: usize) -> BoxedStrategy<Vec<Op>> {
    prop::collection::vec(op(m), 1..=max).boxed()
}

pub fn history(spec: BoxedStrategy<Spec>, m: Mix, max: usize) -> BoxedStrategy<History> {
    (spec, ops(m, max)).prop_map(|(spec, ops)| History { spec, ops }).boxed()
}

pub type World = Vec<BloomFilter>;

pub fn world(spec: &Spec) -> Result<World, String> {
    (0..3).map(|_| spec.create()).collect()
}

pub fn do_fill(f: &mut BloomFilter, vals: Vec<Vec<u8>>) -> Result<(), Error> {
    f.fill(vals)
}

pub fn do_union(w: &mut World, dst: usize, src: usize, how: u8) -> Result<(), Error> {
    let other = w[src].clone();
    match (how, &mut w[dst], other) {
        (1, BloomFilter::V1(a), BloomFilter::V1(b)) => a.union_merge(&b),
        (1, BloomFilter::V2(a), BloomFilter::V2(b)) => a.union_merge(&b),
        (2, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            *a = a.clone().union(b)?;
            Ok(())
        }
        (_, a, b) => a.union_merge(&b),
    }
}

pub fn do_intersect(w: &mut World, dst: usize, src: usize, how: u8) -> Result<(), Error> {
    let other = w[src].clone();
    match (how, &mut w[dst], other) {
        (1, BloomFilter::V2(a), BloomFilter::V2(b)) => {
            *a = a.clone().intersection(b)?;
            Ok(())
        }
        (_, BloomFilter::V2(a), BloomFilter::V2(b)) => a.intersection_merge(&b),
        _ => Ok(()),
    }
}

pub fn do_reload(f: &mut BloomFilter, io: &Chunks) -> Result<(), String> {
    let mut w = ChunkWriter::new(io, WFault::None);
    match &*f {
        BloomFilter::V1(b) if (io.prefix + io.sizes.len()) % 3 == 1 => b.write(&mut w),
        BloomFilter::V2(b) if (io.prefix + io.sizes.len()) % 3 == 1 => b.write(&mut w),
        f => f.write(&mut w),
    }
    .map_err(|e| format!("saving failed: {e}"))?;
    let bytes = w.out;
    *f = load_from(&bytes, ChunkReader::new(&bytes, io))?;
    Ok(())
}

/// What a property watches; the defaults just perform the operation.
pub trait Obs {
    fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _ctx: &mut Ctx) -> Verdict {
        let _ = insert_via(&mut w[slot], v, via);
        Ok(())
    }
    fn fill(&mut self, w: &mut World, slot: usize, set: &KeySet, _ctx: &mut Ctx) -> Verdict {
        let _ = do_fill(&mut w[slot], set.iter().collect());
        Ok(())
    }
    fn contains(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _ctx: &mut Ctx) -> Verdict {
        let _ = contains_via(&w[slot], v, via);
        Ok(())
    }
    fn clear(&mut self, w: &mut World, slot: usize, _ctx: &mut Ctx) -> Verdict {
        clear(&mut w[slot]);
        Ok(())
    }
    fn union(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _ctx: &mut Ctx) -> Verdict {
        let _ = do_union(w, dst, src, how);
        Ok(())
    }
    fn intersect(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _ctx: &mut Ctx) -> Verdict {
        let _ = do_intersect(w, dst, src, how);
        Ok(())
    }
    fn clone_to(&mut self, w: &mut World, dst: usize, src: usize, _ctx: &mut Ctx) -> Verdict {
        w[dst] = w[src].clone();
        Ok(())
    }
    fn reload(&mut self, w: &mut World, slot: usize, io: &Chunks, _ctx: &mut Ctx) -> Verdict {
        let _ = do_reload(&mut w[slot], io);
        Ok(())
    }
    fn data(&mut self, w: &mut World, slot: usize, d: &Blob, _ctx: &mut Ctx) -> Verdict {
        set_data(&mut w[slot], d.bytes());
        Ok(())
    }
}

pub struct Plain;
impl Obs for Plain {}

pub fn exec(w: &mut World, op: &Op, obs: &mut dyn Obs, ctx: &mut Ctx) -> Verdict {
    let i = |s: &u8| *s as usize % w.len();
    match op {
        Op::Insert { slot, key, via } => obs.insert(w, i(slot), &key.bytes(), *via, ctx),
        Op::InsertMany { slot, set, via } => {
            let s = i(slot);
            for k in 0..set.n {
                obs.insert(w, s, &set.get(k), *via, ctx)?;
            }
            Ok(())
        }
        Op::Fill { slot, set } => obs.fill(w, i(slot), set, ctx),
        Op::FillUp { slot, seed, extra } => {
            let s = i(slot);
            let cap = w[s].capacity();
            // values collide in loose filters: bounded number of attempts
            let limit = (cap.saturating_mul(4).saturating_add(50)).min(6000);
            let mut n = 0;
            while n < limit && !w[s].is_full() {
                obs.insert(w, s, &gen_bytes(Style::Random, 9 + n % 20, seed.wrapping_add(n as u64)), n as u8, ctx)?;
                n += 1;
            }
            for e in 0..*extra as usize {
                let k = n + e;
                obs.insert(w, s, &gen_bytes(Style::Random, 9 + k % 20, seed.wrapping_add(k as u64)), k as u8, ctx)?;
            }
            Ok(())
        }
        Op::Contains { slot, key, via } => obs.contains(w, i(slot), &key.bytes(), *via, ctx),
        Op::Clear { slot } => obs.clear(w, i(slot), ctx),
        Op::Union { dst, src, how } => obs.union(w, i(dst), i(src), *how, ctx),
        Op::Intersect { dst, src, how } => obs.intersect(w, i(dst), i(src), *how, ctx),
        Op::Clone { dst, src } => obs.clone_to(w, i(dst), i(src), ctx),
        Op::Reload { slot, io } => obs.reload(w, i(slot), io, ctx),
        Op::SetData { slot, data } => obs.data(w, i(slot), data, ctx),
    }
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Insert { .. } => "insert",
        Op::InsertMany { .. } => "insert many",
        Op::Fill { .. } => "bulk fill",
        Op::FillUp { .. } => "fill up",
        Op::Contains { .. } => "contains",
        Op::Clear { .. } => "clear",
        Op::Union { .. } => "union",
        Op::Intersect { .. } => "intersect",
        Op::Clone { .. } => "clone",
        Op::Reload { .. } => "reload",
        Op::SetData { .. } => "set data",
    }
}

pub fn label_spec(ctx: &mut Ctx, s: &Spec) {
    if s.version == 1 {
        ctx.label("filter v1");
    } else {
        ctx.label(format!("filter v2 opt {}", s.opt));
    }
}

/// None: the filters could not be created, which is the business of C14
pub fn run(h: &History, obs: &mut dyn Obs, ctx: &mut Ctx) -> Result<Option<World>, String> {
    label_spec(ctx, &h.spec);
    let Ok(mut w) = world(&h.spec) else {
        ctx.label("creation refused");
        return Ok(None);
    };
    for (n, op) in h.ops.iter().enumerate() {
        exec(&mut w, op, obs, ctx).map_err(|e| format!("operation {n} ({}): {e}", op_name(op)))?;
        ctx.label(format!("op {}", op_name(op)));
    }
    Ok(Some(w))
}
