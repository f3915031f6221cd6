//! Filters are values: looking changes nothing, copies are independent.

use super::c05::write_via;
use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// the filter an operation may change
fn target(op: &Op) -> u8 {
    match op {
        Op::Insert { slot, .. }
        | Op::InsertMany { slot, .. }
        | Op::Fill { slot, .. }
        | Op::FillUp { slot, .. }
        | Op::Contains { slot, .. }
        | Op::Clear { slot }
        | Op::Reload { slot, .. }
        | Op::SetData { slot, .. } => *slot,
        Op::Union { dst, .. } | Op::Intersect { dst, .. } | Op::Clone { dst, .. } => *dst,
    }
}

/// every way to ask something
fn look(f: &BloomFilter, other: &BloomFilter, keys: &[Vec<u8>], io: &Chunks, cut: usize) -> Vec<String> {
    let mut v = vec![format!(
        "{} {} {:?} {} {} {} {:?}",
        f.version(),
        f.capacity(),
        f.fpp(),
        f.count_estimate(),
        f.is_full(),
        f.size_in_bytes(),
        short(f.data())
    )];
    for (i, k) in keys.iter().enumerate() {
        for via in 0..VIAS {
            v.push(format!("{} {}", i, contains_via(f, k, via)));
        }
    }
    v.push(format!("{} {}", f.has_same_params(other), other.has_same_params(f)));
    v.push(format!("{:?}", f.count_common_entries(other).map_err(|e| e.to_string())));
    v.push(format!("{:?}", other.count_common_entries(f).map_err(|e| e.to_string())));
    // saving, completely or not
    for via in 0..2 {
        let mut w = ChunkWriter::new(io, WFault::None);
        v.push(format!("{} {}", write_via(f, &mut w, via).is_ok(), w.out.len()));
        let mut w = ChunkWriter::new(io, WFault::Full(cut));
        let _ = write_via(f, &mut w, via);
    }
    match f {
        BloomFilter::V1(b) => {
            let bits = b.bits();
            v.push(format!("{} {} {} {}", b.count_ones(), b.count_zeros(), bits.len(), bits.iter().filter(|x| **x).count()));
            v.push(format!("{} {} {} {}", b.n_bits(), b.n_hash_fn(), b.size_in_u64(), b.estimated_p()));
        }
        BloomFilter::V2(b) => v.push(format!("{} {}", b.count_ones(), b.count_zeros())),
    }
    v
}

/// what can be asked about the bits against the saved bits
fn bits_agree(f: &BloomFilter, ctx: &mut Ctx) -> Verdict {
    let Ok(p) = parse(&dump(f)) else {
        ctx.label("layout not recognised");
        return Ok(());
    };
    let ones: usize = p.body.iter().map(|b| b.count_ones() as usize).sum();
    let (got, zeros) = match f {
        BloomFilter::V1(b) => (b.count_ones(), b.count_zeros()),
        BloomFilter::V2(b) => (b.count_ones(), b.count_zeros()),
    };
    // the padding of the last v1 block may be counted or not
    let mut expected = vec![p.body.len() * 8 - ones];
    if matches!(f, BloomFilter::V1(_)) {
        expected.push((p.m as usize).saturating_sub(ones));
    }
    if got != ones || !expected.contains(&zeros) {
        return Err(format!("count_ones and count_zeros are {got} and {zeros}, in the file {ones} and {expected:?}"));
    }
    if let BloomFilter::V1(b) = f {
        let bits = b.bits();
        if bits.len() as u64 != p.m {
            return Err(format!("bits() has {} elements, the filter {} bits", bits.len(), p.m));
        }
        if let Some(i) = (0..bits.len()).find(|&i| bits[i] != (p.body[i / 8] >> (i % 8) & 1 == 1)) {
            return Err(format!("bits()[{i}] is {}, in the file it is not", bits[i]));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: History,
    keys: Vec<Key>,
    io: Chunks,
    cut: u16,
    /// what happens to one of two copies
    later: Vec<Op>,
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.h.spec);
    let Ok(mut w) = world(&c.h.spec) else { return Ok(()) };
    let keys: Vec<Vec<u8>> = c.keys.iter().map(|k| k.bytes()).collect();
    let mut asked = 0u64;
    for (n, op) in c.h.ops.iter().enumerate() {
        let at = |e: String| format!("operation {n} ({}): {e}", op_name(op));
        let before: Vec<Vec<u8>> = w.iter().map(dump).collect();
        let t = target(op) as usize % 3;
        exec(&mut w, op, &mut Plain, ctx).map_err(at)?;
        for i in 0..3 {
            let changes = i == t && !matches!(op, Op::Contains { .. } | Op::Reload { .. });
            if !changes && dump(&w[i]) != before[i] {
                return Err(at(format!("filter {i} was changed although the operation is not about it")));
            }
        }
        // look twice at the filter just used
        let (f, o) = (&w[t], &w[(t + 1) % 3]);
        let (df, od) = (dump(f), dump(o));
        let cut = df.len() * c.cut as usize >> 16;
        let a = look(f, o, &keys, &c.io, cut);
        let b = look(f, o, &keys, &c.io, cut);
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(0);
            return Err(at(format!("the same question is answered differently the second time: {} and {}", a[i], b[i])));
        }
        if dump(f) != df || dump(o) != od {
            return Err(at("queries changed a filter".into()));
        }
        asked += a.len() as u64;
        bits_agree(f, ctx).map_err(at)?;
    }
    // copies
    let original = w[0].clone();
    let d = dump(&original);
    if dump(&w[0]) != d {
        return Err("a clone is saved differently".into());
    }
    let mut copies: Vec<BloomFilter> = vec![original.clone()];
    if let (Ok(a), Ok(b)) = (load(&d), load(&d)) {
        copies.extend([a, b]);
    }
    let all: Vec<Vec<u8>> = copies.iter().map(dump).collect();
    let mut changed = false;
    for i in 0..copies.len() {
        let mut w2: World = vec![copies[i].clone(), w[1].clone(), w[2].clone()];
        std::mem::swap(&mut w2[0], &mut copies[i]);
        // w2[0] is the copy itself now, copies[i] its clone
        for op in &c.later {
            exec(&mut w2, op, &mut Plain, ctx)?;
        }
        changed |= dump(&w2[0]) != d;
        if dump(&original) != d {
            return Err("operations on a copy changed the original".into());
        }
        for (j, x) in copies.iter().enumerate() {
            if dump(x) != all[j] {
                return Err("operations on one copy changed another".into());
            }
        }
    }
    // the original is used, the copies stay
    let mut w2: World = vec![original, w[1].clone(), w[2].clone()];
    for op in &c.later {
        exec(&mut w2, op, &mut Plain, ctx)?;
    }
    for (j, x) in copies.iter().enumerate() {
        if dump(x) != all[j] {
            return Err("operations on the original changed a copy".into());
        }
    }
    ctx.count("questions", asked);
    if changed {
        ctx.label("a copy went its own way");
    }
    ctx.nontrivial = changed;
    Ok(())
}

// ---------------------------------------------------------------- threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    spec: Spec,
    set: KeySet,
    probes: KeySet,
    keys: Vec<Key>,
    threads: u8,
    via: u8,
}

fn check_threads(c: &Threads, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.spec);
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    for v in c.set.iter() {
        let _ = f.insert_bytes(v);
    }
    let vals: Vec<Vec<u8>> = c.set.iter().chain(c.probes.iter()).chain(c.keys.iter().map(|k| k.bytes())).collect();
    if vals.is_empty() {
        return Ok(());
    }
    let want: Vec<bool> = vals.iter().map(|v| f.contains_bytes(v)).collect();
    // a second filter for the queries about two
    let mut other = f.clone();
    for v in c.probes.iter() {
        let _ = other.insert_bytes(v);
    }
    let io = Chunks { sizes: vec![4096], prefix: 0 };
    let some: Vec<Vec<u8>> = vals.iter().take(3).cloned().collect();
    let seen = look(&f, &other, &some, &io, 10);
    let d = dump(&f);
    let n = c.threads as usize % 7 + 2;
    let bad: Vec<Result<(), String>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..n)
            .map(|t| {
                let (f, other, vals, want, d, some, io, seen) = (&f, &other, &vals, &want, &d, &some, &io, &seen);
                s.spawn(move || {
                    for i in 0..vals.len() * 2 {
                        let at = (i + t * vals.len() / n) % vals.len();
                        if contains_via(f, &vals[at], c.via.wrapping_add((i + t) as u8)) != want[at] {
                            return Err(format!("{} is answered differently by a lookup in one of {n} threads", short(&vals[at])));
                        }
                    }
                    for _ in 0..4 {
                        if look(f, other, some, io, 10) != *seen {
                            return Err(format!("a query is answered differently in one of {n} threads"));
                        }
                    }
                    if dump(f) != *d {
                        return Err(format!("one of {n} threads saves another filter"));
                    }
                    Ok(())
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in bad {
        r?;
    }
    if dump(&f) != d {
        return Err("lookups from several threads changed the filter".into());
    }
    ctx.count("lookups from threads", (vals.len() * 2 * n) as u64);
    ctx.nontrivial = want.iter().any(|x| *x) && want.iter().any(|x| !x);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "histories over three filters: after each operation the serialized form of every filter it is not about is unchanged, and two rounds of every query (metadata, lookups through 8 interfaces, comparison and common counts with another filter, complete and failing saves, bit counts) give the same answers and change nothing; bit counts and bit vectors against the saved bits; clones and loads of one file go through a further history one at a time while the others must stay; lookups, all other queries and saves from 2 to 8 threads at once against sequential ones. Non-trivial: a copy became different from the others, or (threads) both contained and absent values were looked up",
        suites: || {
            vec![
                suite(
                    "histories",
                    6_000,
                    90_000,
                    |_| {
                        (
                            history(prop_oneof![3 => spec(20_000.0), 1 => small_spec()].boxed(), Mix { bulk: 200, ..ALL }, 12),
                            prop::collection::vec(key_max(300), 0..4),
                            chunks(),
                            any::<u16>(),
                            ops(Mix { bulk: 200, ..ALL }, 6),
                        )
                            .prop_map(|(h, keys, io, cut, later)| Case { h, keys, io, cut, later })
                            .boxed()
                    },
                    check,
                ),
                suite(
                    "threads",
                    800,
                    12_000,
                    |_| {
                        (prop_oneof![3 => spec(60_000.0), 1 => small_spec()], keyset(300), keyset(300), prop::collection::vec(key(), 0..4), any::<u8>(), any::<u8>())
                            .prop_map(|(spec, set, probes, keys, threads, via)| Threads { spec, set, probes, keys, threads, via })
                            .boxed()
                    },
                    check_threads,
                ),
            ]
        },
        processes: false,
    }
}
