//! Bit sets.

use super::Prop;
use crate::engine::*;
use crate::gens::mix;
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Set(u32),
    Unset(u32),
    Get(u32),
    /// many pseudo random bits
    SetMany { seed: u64, n: u16 },
    UnsetMany { seed: u64, n: u16 },
    SetAll,
    Clear,
    Union,
    Intersection,
    /// swap the two sets
    Swap,
    CloneOther,
    /// write a byte through the slice
    Byte(u32, u8),
    /// index beyond the end
    Beyond(u64),
}

trait Bits: Clone {
    fn set(&mut self, i: usize) -> bool;
    fn unset(&mut self, i: usize) -> bool;
    fn get(&self, i: usize) -> bool;
    fn wipe(&mut self);
    fn or(&mut self, o: &Self);
    fn and(&mut self, o: &Self);
    fn ones(&self) -> usize;
    fn zeros(&self) -> usize;
    fn common(&self, o: &Self) -> usize;
    fn bits(&self) -> usize;
    fn bytes(&self) -> usize;
    fn slice(&self) -> &[u8];
    fn slice_mut(&mut self) -> &mut [u8];
}

macro_rules! bits {
    ($t:ty $(, $n:ident)?) => {
        impl$(<const $n: usize>)? Bits for $t {
            fn set(&mut self, i: usize) -> bool {
                self.set_nth_bit(i)
            }
            fn unset(&mut self, i: usize) -> bool {
                self.unset_nth_bit(i)
            }
            fn get(&self, i: usize) -> bool {
                self.get_nth_bit(i)
            }
            fn wipe(&mut self) {
                self.clear()
            }
            fn or(&mut self, o: &Self) {
                self.union(o)
            }
            fn and(&mut self, o: &Self) {
                self.intersection(o)
            }
            fn ones(&self) -> usize {
                self.count_ones()
            }
            fn zeros(&self) -> usize {
                self.count_zeros()
            }
            fn common(&self, o: &Self) -> usize {
                self.count_ones_in_common(o)
            }
            fn bits(&self) -> usize {
                self.bit_len()
            }
            fn bytes(&self) -> usize {
                self.byte_len()
            }
            fn slice(&self) -> &[u8] {
                self.as_slice()
            }
            fn slice_mut(&mut self) -> &mut [u8] {
                self.as_mut_slice()
            }
        }
    };
}
bits!(BitSet<N>, N);
bits!(VecBitSet);

fn agree<B: Bits>(b: &B, m: &BTreeSet<usize>, n: usize) -> Verdict {
    if b.ones() != m.len() {
        return Err(format!("count_ones is {} instead of {}", b.ones(), m.len()));
    }
    if b.zeros() != n - m.len() {
        return Err(format!("count_zeros is {} instead of {}", b.zeros(), n - m.len()));
    }
    for i in 0..n {
        if b.get(i) != m.contains(&i) {
            return Err(format!("bit {i} is {}, expected {}", b.get(i), m.contains(&i)));
        }
    }
    Ok(())
}

fn drive<B: Bits>(new: impl Fn() -> B, n: usize, ops: &[Op], ctx: &mut Ctx) -> Verdict {
    let mut b = [new(), new()];
    let mut m: [BTreeSet<usize>; 2] = Default::default();
    for x in &b {
        if x.bits() != n || x.bytes() != n / 8 || x.slice().len() != n / 8 {
            return Err(format!("lengths of a new set: {} bits, {} bytes, slice of {}, expected {n} bits", x.bits(), x.bytes(), x.slice().len()));
        }
        agree(x, &BTreeSet::new(), n).map_err(|e| format!("new set: {e}"))?;
    }
    for (step, op) in ops.iter().enumerate() {
        let bad = |e: String| format!("operation {step} {op:?} on {n} bits: {e}");
        let in_range = |i: &u32| (n > 0).then(|| *i as usize % n.max(1));
        let many = |seed: u64, k: u16| (0..if n == 0 { 0 } else { k as u64 }).map(move |j| mix(seed.wrapping_add(j)) as usize % n.max(1));
        match op {
            Op::Set(i) => {
                if let Some(i) = in_range(i) {
                    let old = b[0].set(i);
                    if old == m[0].insert(i) {
                        return Err(bad(format!("set_nth_bit returned {old} as the old value")));
                    }
                }
            }
            Op::Unset(i) => {
                if let Some(i) = in_range(i) {
                    let old = b[0].unset(i);
                    if old != m[0].remove(&i) {
                        return Err(bad(format!("unset_nth_bit returned {old} as the old value")));
                    }
                }
            }
            Op::Get(i) => {
                if let Some(i) = in_range(i) {
                    if b[0].get(i) != m[0].contains(&i) {
                        return Err(bad("wrong bit".into()));
                    }
                }
            }
            Op::SetMany { seed, n: k } => {
                for i in many(*seed, *k) {
                    if b[0].set(i) == m[0].insert(i) {
                        return Err(bad(format!("setting bit {i} returned the wrong old value")));
                    }
                }
            }
            Op::UnsetMany { seed, n: k } => {
                for i in many(*seed, *k) {
                    if b[0].unset(i) != m[0].remove(&i) {
                        return Err(bad(format!("unsetting bit {i} returned the wrong old value")));
                    }
                }
            }
            Op::SetAll => {
                for i in 0..n {
                    if b[0].set(i) == m[0].insert(i) {
                        return Err(bad(format!("setting bit {i} returned the wrong old value")));
                    }
                }
            }
            Op::Clear => {
                b[0].wipe();
                m[0].clear();
            }
            Op::Union => {
                let o = b[1].clone();
                b[0].or(&o);
                m[0] = &m[0] | &m[1];
            }
            Op::Intersection => {
                let o = b[1].clone();
                b[0].and(&o);
                m[0] = &m[0] & &m[1];
            }
            Op::Swap => {
                b.swap(0, 1);
                m.swap(0, 1);
            }
            Op::CloneOther => {
                b[0] = b[1].clone();
                m[0] = m[1].clone();
            }
            Op::Byte(i, v) => {
                if n > 0 {
                    let at = *i as usize % (n / 8);
                    b[0].slice_mut()[at] = *v;
                    for j in 0..8 {
                        m[0].remove(&(at * 8 + j));
                    }
                    // which bit of the byte is which index is not part of the property: take it over
                    for j in 0..8 {
                        if b[0].get(at * 8 + j) {
                            m[0].insert(at * 8 + j);
                        }
                    }
                    if (0..8).filter(|j| m[0].contains(&(at * 8 + j))).count() != v.count_ones() as usize {
                        return Err(bad("a byte written through the slice is not what its bits say".into()));
                    }
                }
            }
            Op::Beyond(d) => {
                let i = n.saturating_add(*d as usize);
                let before = b[0].slice().to_vec();
                let mut c = b[0].clone();
                if no_panic("get", || c.get(i)).is_ok() {
                    return Err(bad(format!("reading bit {i} did not panic")));
                }
                if no_panic("set", || c.set(i)).is_ok() {
                    return Err(bad(format!("setting bit {i} did not panic")));
                }
                if no_panic("unset", || c.unset(i)).is_ok() {
                    return Err(bad(format!("unsetting bit {i} did not panic")));
                }
                if c.slice() != before {
                    return Err(bad(format!("access to bit {i} changed the set")));
                }
                ctx.label("beyond the end");
            }
        }
        let common = m[0].intersection(&m[1]).count();
        if b[0].common(&b[1]) != common || b[1].common(&b[0]) != common {
            return Err(bad(format!("count_ones_in_common is {}, expected {common}", b[0].common(&b[1]))));
        }
        for j in 0..2 {
            agree(&b[j], &m[j], n).map_err(bad)?;
            if b[j].bits() != n || b[j].bytes() != n / 8 {
                return Err(bad("the length changed".into()));
            }
        }
    }
    ctx.nontrivial = !m[0].is_empty() || !m[1].is_empty() || ops.len() > 3;
    Ok(())
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => any::<u32>().prop_map(Op::Set),
        3 => (0u32..20).prop_map(Op::Set),
        4 => any::<u32>().prop_map(Op::Unset),
        3 => (0u32..20).prop_map(Op::Unset),
        1 => any::<u32>().prop_map(Op::Get),
        3 => (any::<u64>(), 0u16..600).prop_map(|(seed, n)| Op::SetMany { seed, n }),
        2 => (any::<u64>(), 0u16..600).prop_map(|(seed, n)| Op::UnsetMany { seed, n }),
        1 => Just(Op::SetAll),
        1 => Just(Op::Clear),
        2 => Just(Op::Union),
        2 => Just(Op::Intersection),
        3 => Just(Op::Swap),
        1 => Just(Op::CloneOther),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Op::Byte(a, b)),
        2 => prop_oneof![0u64..20, prop::sample::select(vec![63u64, 64, 1 << 20, 1 << 32, 1 << 61, 1 << 63, u64::MAX])].prop_map(Op::Beyond),
    ]
    .boxed()
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    prop::collection::vec(op(), 0..24).boxed()
}

fn array(n: u8, ops: &[Op], ctx: &mut Ctx) -> Verdict {
    fn go<const N: usize>(ops: &[Op], ctx: &mut Ctx) -> Verdict {
        if BitSet::<N>::bit_size() != N * 8 || BitSet::<N>::byte_size() != N {
            return Err(format!("BitSet<{N}>: bit_size {} byte_size {}", BitSet::<N>::bit_size(), BitSet::<N>::byte_size()));
        }
        ctx.label(format!("array of {N} bytes"));
        drive(BitSet::<N>::new, N * 8, ops, ctx)
    }
    match n % 15 {
        0 => go::<0>(ops, ctx),
        1 => go::<1>(ops, ctx),
        2 => go::<2>(ops, ctx),
        3 => go::<3>(ops, ctx),
        4 => go::<7>(ops, ctx),
        5 => go::<8>(ops, ctx),
        6 => go::<9>(ops, ctx),
        7 => go::<16>(ops, ctx),
        8 => go::<33>(ops, ctx),
        9 => go::<64>(ops, ctx),
        10 => go::<100>(ops, ctx),
        11 => go::<1001>(&ops[..ops.len().min(12)], ctx),
        12 => go::<4096>(&ops[..ops.len().min(8)], ctx),
        13 => go::<8192>(&ops[..ops.len().min(6)], ctx),
        _ => go::<20003>(&ops[..ops.len().min(4)], ctx),
    }
}

fn vector(bits: usize, ops: &[Op], ctx: &mut Ctx) -> Verdict {
    let n = bits.div_ceil(8) * 8;
    if VecBitSet::with_bit_capacity(bits).is_empty() != (bits == 0) {
        return Err(format!("is_empty is wrong for a capacity of {bits} bits"));
    }
    ctx.label("vector");
    drive(|| VecBitSet::with_bit_capacity(bits), n, ops, ctx)
}

/// Long vectors: a few bits far apart, also beyond 2^32.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    bits: usize,
    seed: u64,
    n: u32,
}

fn check_long(c: &Long, ctx: &mut Ctx) -> Verdict {
    let n = c.bits.div_ceil(8) * 8;
    let mut b = [VecBitSet::with_bit_capacity(c.bits), VecBitSet::with_bit_capacity(c.bits)];
    let mut m: [BTreeSet<usize>; 2] = Default::default();
    if b[0].bit_len() != n || b[0].byte_len() != n / 8 || b[0].as_slice().len() != n / 8 {
        return Err(format!("a vector of {n} bits has a length of {} bits", b[0].bit_len()));
    }
    for j in 0..2 {
        for k in 0..c.n as u64 {
            let i = match k {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                // some in both
                _ => mix(c.seed ^ k ^ if k % 3 == 0 { 0 } else { j as u64 + 1 }) as usize % n,
            };
            if b[j].set_nth_bit(i) == m[j].insert(i) {
                return Err(format!("setting bit {i} of {n} returned the wrong old value"));
            }
            if k % 5 == 4 && b[j].unset_nth_bit(i) != m[j].remove(&i) {
                return Err(format!("unsetting bit {i} of {n} returned the wrong old value"));
            }
        }
    }
    let agree = |b: &VecBitSet, m: &BTreeSet<usize>, when: &str| -> Verdict {
        if b.count_ones() != m.len() || b.count_zeros() != n - m.len() {
            return Err(format!("count_ones and count_zeros of {n} bits are {} and {} instead of {} {when}", b.count_ones(), b.count_zeros(), m.len()));
        }
        for &i in m {
            for d in [0usize, 1, 8, 64, 1 << 16, 1 << 29, 1 << 31, 1 << 32] {
                for i in [i.checked_sub(d), i.checked_add(d)].into_iter().flatten().filter(|&i| i < n) {
                    if b.get_nth_bit(i) != m.contains(&i) {
                        return Err(format!("bit {i} of {n} is {} {when}", b.get_nth_bit(i)));
                    }
                }
            }
        }
        Ok(())
    };
    for j in 0..2 {
        agree(&b[j], &m[j], "after setting bits")?;
    }
    let common = m[0].intersection(&m[1]).count();
    if b[0].count_ones_in_common(&b[1]) != common {
        return Err(format!("count_ones_in_common of {n} bits is {} instead of {common}", b[0].count_ones_in_common(&b[1])));
    }
    let [mut x, y] = b;
    if c.seed % 2 == 0 {
        x.union(&y);
        m[0] = &m[0] | &m[1];
        agree(&x, &m[0], "after a union")?;
    } else {
        x.intersection(&y);
        m[0] = &m[0] & &m[1];
        agree(&x, &m[0], "after an intersection")?;
    }
    if no_panic("get", || x.get_nth_bit(n)).is_ok() {
        return Err(format!("reading bit {n} of {n} did not panic"));
    }
    x.clear();
    agree(&x, &BTreeSet::new(), "after clear")?;
    x.as_mut_slice().fill(0xff);
    if x.count_ones() != n || x.count_zeros() != 0 || x.count_ones_in_common(&x) != n {
        return Err(format!("all {n} bits are set, count_ones is {}, count_zeros {}, in common with itself {}", x.count_ones(), x.count_zeros(), x.count_ones_in_common(&x)));
    }
    ctx.label(if n > 1 << 32 { "more than 2^32 bits" } else { "long vector" });
    ctx.nontrivial = true;
    Ok(())
}

/// Vectors with many bits set, against their bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dense {
    bits: usize,
    seed: u64,
    /// how many ways of 8 are all ones, random or zero
    full: [u8; 2],
    zero: [u8; 2],
}

fn check_dense(c: &Dense, ctx: &mut Ctx) -> Verdict {
    let len = c.bits.div_ceil(8);
    let mut b = [VecBitSet::with_bit_capacity(c.bits), VecBitSet::with_bit_capacity(c.bits)];
    let mut m = [vec![0u8; len], vec![0u8; len]];
    for j in 0..2 {
        // runs of the same kind
        let mut kind = 0;
        for i in 0..len {
            let r = mix(c.seed ^ mix(i as u64 * 2 + j as u64));
            if i % 64 == 0 {
                kind = (r >> 8) % 8;
            }
            m[j][i] = if kind < c.full[j] as u64 {
                0xff
            } else if kind < (c.full[j] + c.zero[j]) as u64 {
                0
            } else {
                r as u8
            };
        }
        b[j].as_mut_slice().copy_from_slice(&m[j]);
        // some bits by index
        for k in 0..50u64 {
            let i = mix(c.seed ^ k) as usize % (len * 8);
            let want = m[j][i / 8] >> (i % 8) & 1 == 1;
            let (old, now) = if k % 2 == 0 { (b[j].set_nth_bit(i), true) } else { (b[j].unset_nth_bit(i), false) };
            if now {
                m[j][i / 8] |= 1 << (i % 8);
            } else {
                m[j][i / 8] &= !(1 << (i % 8));
            }
            if old != want || b[j].get_nth_bit(i) != now {
                return Err(format!("changing bit {i} of {} returned the wrong value or changed nothing", c.bits));
            }
        }
    }
    let ones = |m: &[u8]| m.iter().map(|x| x.count_ones() as usize).sum::<usize>();
    let agree = |b: &VecBitSet, m: &[u8], what: &str| -> Verdict {
        if b.as_slice() != m {
            let i = (0..m.len()).find(|&i| b.as_slice()[i] != m[i]);
            return Err(format!("{what} of {} bits: byte {i:?} is wrong", c.bits));
        }
        let n = ones(m);
        if b.count_ones() != n || b.count_zeros() != m.len() * 8 - n {
            return Err(format!("{what} of {} bits: count_ones and count_zeros are {} and {}, of {n} and {}", c.bits, b.count_ones(), b.count_zeros(), m.len() * 8 - n));
        }
        Ok(())
    };
    let both: Vec<u8> = m[0].iter().zip(&m[1]).map(|(a, b)| a & b).collect();
    let any: Vec<u8> = m[0].iter().zip(&m[1]).map(|(a, b)| a | b).collect();
    agree(&b[0], &m[0], "the first set")?;
    agree(&b[1], &m[1], "the second set")?;
    for (x, y) in [(0, 1), (1, 0)] {
        if b[x].count_ones_in_common(&b[y]) != ones(&both) {
            return Err(format!("count_ones_in_common of {} bits is {} instead of {}", c.bits, b[x].count_ones_in_common(&b[y]), ones(&both)));
        }
        let mut u = b[x].clone();
        u.union(&b[y]);
        agree(&u, &any, "the union")?;
        let mut u = b[x].clone();
        u.intersection(&b[y]);
        agree(&u, &both, "the intersection")?;
        u.clear();
        agree(&u, &vec![0; len], "a cleared set")?;
    }
    agree(&b[0], &m[0], "the first set afterwards")?;
    let n = ones(&m[0]);
    ctx.label(if n > 1 << 16 { "more than 2^16 bits set" } else { "dense vector" });
    ctx.nontrivial = n > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "sequences of up to 24 operations on two bit sets (arrays of 13 sizes, vectors of any length) against sets of indexes; every bit, all counts and lengths are compared after every operation, indexes beyond the end must panic; long vectors, also beyond 2^32 bits, with bits far apart or nearly all set. Non-trivial: bits are set at the end or more than three operations were made",
        suites: || {
            vec![
                suite("arrays", 20_000, 600_000, |_| (any::<u8>(), ops()).boxed(), |c: &(u8, Vec<Op>), ctx: &mut Ctx| array(c.0, &c.1, ctx)),
                suite(
                    "vectors",
                    20_000,
                    600_000,
                    |_| (prop_oneof![4 => 0usize..70, 2 => 0usize..1000, 1 => (0u32..13, 0usize..3).prop_map(|(e, d)| ((1usize << e) + d).saturating_sub(1))], ops()).boxed(),
                    |c: &(usize, Vec<Op>), ctx: &mut Ctx| vector(c.0, &c.1, ctx),
                ),
                suite(
                    "long vectors",
                    200,
                    4_000,
                    |_| {
                        let bits = prop_oneof![3 => (12.0f64..=23.0).prop_map(|e| 2f64.powf(e) as usize), 1 => (12u32..=23, 0usize..3).prop_map(|(e, d)| (1usize << e) + d - 1)];
                        (bits, any::<u64>(), 3u32..2000).prop_map(|(bits, seed, n)| Long { bits, seed, n }).boxed()
                    },
                    check_long,
                ),
                suite(
                    "dense vectors",
                    100,
                    3_000,
                    |_| {
                        let bits = prop_oneof![3 => (3.0f64..=21.0).prop_map(|e| 2f64.powf(e) as usize), 1 => (8u32..=20, 0usize..3).prop_map(|(e, d)| (1usize << e) + d - 1)];
                        (bits, any::<u64>(), any::<[(u8, u8); 2]>())
                            .prop_map(|(bits, seed, k)| Dense { bits, seed, full: k.map(|x| x.0 % 9), zero: k.map(|x| x.1 % 4) })
                            .boxed()
                    },
                    check_dense,
                ),
                suite_fixed(
                    "beyond 32 bits",
                    4,
                    24,
                    |_| (((1usize << 32) + 1)..(5usize << 30), any::<u64>(), 3u32..2000).prop_map(|(bits, seed, n)| Long { bits, seed, n }).boxed(),
                    check_long,
                ),
            ]
        },
        processes: false,
    }
}
