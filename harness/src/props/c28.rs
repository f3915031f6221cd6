//! The filter type for either version against the version-specific types.

use super::Prop;
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::*;
use poppy_filters::{v1, v2, BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Cursor;

/// an expression about the filter inside
macro_rules! inside {
    ($f:expr, $b:ident => $e:expr) => {
        match $f {
            BloomFilter::V1($b) => $e,
            BloomFilter::V2($b) => $e,
        }
    };
}

fn outcome<T: std::fmt::Debug>(r: Result<T, Error>) -> String {
    match r {
        Ok(x) => format!("Ok({x:?})"),
        Err(Error::WrongFpp(p)) => format!("WrongFpp({p:?})"),
        Err(Error::IoError(e)) => format!("IoError({:?})", e.kind()),
        Err(Error::InvalidVersion(v)) => format!("InvalidVersion({v})"),
        Err(Error::Merge(_)) => "Merge".into(),
        Err(Error::OptLevel(e)) => format!("OptLevel({e})"),
        Err(Error::TooManyEntries) => "TooManyEntries".into(),
        Err(e) => format!("{e:?}"),
    }
}

fn inner_dump(f: &BloomFilter) -> Vec<u8> {
    let mut v = vec![];
    inside!(f, b => b.write(&mut v)).expect("writing to memory failed");
    v
}

fn meta(f: &BloomFilter) -> String {
    format!("{} {:?} {} {} {} {:?}", f.capacity(), f.fpp(), f.count_estimate(), f.is_full(), f.size_in_bytes(), short(f.data()))
}

fn inner_meta(f: &BloomFilter) -> String {
    inside!(f, b => format!("{} {:?} {} {} {} {:?}", b.capacity(), b.fpp(), b.count_estimate(), b.is_full(), b.size_in_bytes(), short(&b.data)))
}

fn inner_insert(f: &mut BloomFilter, v: &[u8]) -> Result<bool, Error> {
    inside!(f, b => b.insert_bytes(v))
}

fn inner_union(f: &mut BloomFilter, o: &BloomFilter) -> Option<Result<(), Error>> {
    match (f, o) {
        (BloomFilter::V1(a), BloomFilter::V1(b)) => Some(a.union_merge(b)),
        (BloomFilter::V2(a), BloomFilter::V2(b)) => Some(a.union_merge(b)),
        _ => None,
    }
}

fn inner_common(f: &BloomFilter, o: &BloomFilter) -> Option<(bool, Result<usize, Error>)> {
    match (f, o) {
        (BloomFilter::V1(a), BloomFilter::V1(b)) => Some((a.has_same_params(b), a.count_common_entries(b))),
        (BloomFilter::V2(a), BloomFilter::V2(b)) => Some((a.has_same_params(b), a.count_common_entries(b))),
        _ => None,
    }
}

fn inner_load(version: u8, bytes: &[u8]) -> Result<BloomFilter, Error> {
    match version {
        1 => v1::BloomFilter::from_reader(Cursor::new(bytes)).map(BloomFilter::V1),
        _ => v2::BloomFilter::from_reader(Cursor::new(bytes)).map(BloomFilter::V2),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    h: History,
    /// a filter with other parameters, perhaps of the other version
    other: Spec,
    keys: Vec<Key>,
    /// changes to the saved form: position (of 65536) and value of a byte, and where it ends
    patch: Option<(u16, u8)>,
    head: Option<(u8, u8)>,
    cut: u16,
}

fn same(what: &str, generic: String, specific: String) -> Verdict {
    if generic != specific {
        return Err(format!("{what} gives {generic}, on the version-specific filter {specific}"));
    }
    Ok(())
}

/// the same value twice: used through the enum, and through the type inside
struct Pair {
    g: World,
    s: World,
}

impl Pair {
    fn insert(&mut self, i: usize, v: &[u8]) -> Verdict {
        same("insert_bytes", outcome(self.g[i].insert_bytes(v)), outcome(inner_insert(&mut self.s[i], v)))
    }

    fn apply(&mut self, op: &Op) -> Verdict {
        let n = self.g.len();
        let i = |s: &u8| *s as usize % n;
        match op {
            Op::Insert { slot, key, .. } => self.insert(i(slot), &key.bytes()),
            Op::InsertMany { slot, set, .. } => set.iter().try_for_each(|v| self.insert(i(slot), &v)),
            Op::FillUp { slot, seed, extra } => {
                let s = i(slot);
                let mut k = 0;
                let mut more = *extra as usize;
                while k < 3000 && more > 0 {
                    if self.g[s].is_full() {
                        more -= 1;
                    }
                    self.insert(s, &gen_bytes(Style::Random, 9 + k % 20, seed.wrapping_add(k as u64)))?;
                    k += 1;
                }
                Ok(())
            }
            Op::Fill { slot, set } => {
                let s = i(slot);
                let vals: Vec<Vec<u8>> = set.iter().collect();
                let mut r = Ok(());
                for v in &vals {
                    if let Err(e) = inner_insert(&mut self.s[s], v) {
                        r = Err(e);
                        break;
                    }
                }
                same("fill", outcome(self.g[s].fill(vals)), outcome(r))
            }
            Op::Contains { slot, key, .. } => {
                let (s, v) = (i(slot), key.bytes());
                same("contains_bytes", self.g[s].contains_bytes(&v).to_string(), inside!(&self.s[s], b => b.contains_bytes(&v)).to_string())
            }
            Op::Clear { slot } => {
                let s = i(slot);
                self.g[s].clear();
                inside!(&mut self.s[s], b => b.clear());
                Ok(())
            }
            Op::Union { dst, src, .. } => {
                let (d, o) = (i(dst), i(src));
                let other = self.g[o].clone();
                let r = outcome(self.g[d].union_merge(&other));
                match inner_union(&mut self.s[d], &other) {
                    Some(x) => same("union_merge", r, outcome(x)),
                    None => same("union_merge of different versions", r, "Merge".into()),
                }
            }
            Op::Intersect { dst, src, how } => {
                // only v2 has it
                for w in [&mut self.g, &mut self.s] {
                    let _ = do_intersect(w, i(dst), i(src), *how);
                }
                Ok(())
            }
            Op::Clone { dst, src } => {
                let (d, o) = (i(dst), i(src));
                self.g[d] = self.g[o].clone();
                self.s[d] = match &self.s[o] {
                    BloomFilter::V1(b) => BloomFilter::V1(b.clone()),
                    BloomFilter::V2(b) => BloomFilter::V2(b.clone()),
                };
                Ok(())
            }
            Op::Reload { slot, io } => {
                let s = i(slot);
                let mut w = ChunkWriter::new(io, WFault::None);
                self.g[s].write(&mut w).map_err(|e| format!("saving failed: {e}"))?;
                self.g[s] = BloomFilter::from_reader(ChunkReader::new(&w.out, io)).map_err(|e| format!("loading failed: {e}"))?;
                self.s[s] = inner_load(self.s[s].version(), &inner_dump(&self.s[s])).map_err(|e| format!("the version-specific reader fails: {e}"))?;
                Ok(())
            }
            Op::SetData { slot, data } => {
                for w in [&mut self.g, &mut self.s] {
                    set_data(&mut w[i(slot)], data.bytes());
                }
                Ok(())
            }
        }
    }

    fn compare(&self) -> Verdict {
        for (g, s) in self.g.iter().zip(&self.s) {
            same("metadata", meta(g), inner_meta(s))?;
            if dump(g) != inner_dump(s) {
                return Err("the filters have become different".into());
            }
        }
        Ok(())
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.h.spec);
    let (Ok(mut g), Ok(other)) = (world(&c.h.spec), c.other.create()) else { return Ok(()) };
    g.push(other);
    let mut p = Pair { s: g.clone(), g };
    p.compare()?;
    let keys: Vec<Vec<u8>> = c.keys.iter().map(|k| k.bytes()).collect();
    for (n, op) in c.h.ops.iter().enumerate() {
        let at = |e: String| format!("operation {n} ({}): {e}", op_name(op));
        let before: Vec<Vec<u8>> = p.g.iter().map(dump).collect();
        no_panic("operation", || p.apply(op))?.map_err(at)?;
        p.compare().map_err(at)?;
        if let Op::Union { dst, src, .. } = op {
            let (d, o) = (*dst as usize % 4, *src as usize % 4);
            if p.g[d].version() != p.g[o].version() && dump(&p.g[d]) != before[d] {
                return Err(at("a refused union of different versions changed the filter".into()));
            }
        }
        for i in 0..p.g.len() {
            for k in &keys {
                same("contains_bytes", p.g[i].contains_bytes(k).to_string(), inside!(&p.s[i], b => b.contains_bytes(k)).to_string()).map_err(at)?;
            }
            for j in 0..p.g.len() {
                let r = (p.g[i].has_same_params(&p.g[j]), outcome(p.g[i].count_common_entries(&p.g[j])));
                match inner_common(&p.s[i], &p.s[j]) {
                    Some((a, b)) => same("comparison", format!("{r:?}"), format!("{:?}", (a, outcome(b)))).map_err(at)?,
                    None => {
                        ctx.label("different versions compared");
                        same("comparison of different versions", format!("{r:?}"), format!("{:?}", (false, "Merge"))).map_err(at)?
                    }
                }
            }
        }
    }
    // readers, on what was saved and on something else
    for f in &p.g {
        let mut bytes = dump(f);
        if let Some((at, x)) = c.patch {
            let at = (bytes.len() * at as usize) >> 16;
            bytes[at] ^= x;
        }
        if let Some((version, opt)) = c.head {
            (bytes[0], bytes[1]) = (version, opt);
        }
        let len = bytes.len();
        if c.cut > 0 {
            bytes.truncate((len * c.cut as usize) >> 16);
        }
        let generic = BloomFilter::from_reader(Cursor::new(&bytes));
        let version = bytes.first().copied().unwrap_or(0);
        let mut accepted = 0;
        for v in [1u8, 2] {
            let r = inner_load(v, &bytes);
            accepted += r.is_ok() as u32;
            match (&generic, r) {
                (Ok(a), Ok(b)) => {
                    if a.version() != v || dump(a) != inner_dump(&b) {
                        return Err(format!("the reader for version {v} and the reader for any version load different filters"));
                    }
                }
                (g, Ok(_)) => return Err(format!("the reader for version {v} accepts what the reader for any version does not: {}", outcome(g.as_ref().map(|_| ()).map_err(|_| Error::UninitIter)))),
                (Ok(a), Err(e)) if a.version() == v => return Err(format!("the reader for version {v} refuses what the reader for any version accepts: {e}")),
                (_, Err(e)) => {
                    if bytes.len() >= 8 && bytes[1] <= 3 && version != v && !matches!(e, Error::InvalidVersion(x) if x == version) {
                        return Err(format!("the reader for version {v} reports {e} for a file of version {version}"));
                    }
                }
            }
        }
        ctx.label(if generic.is_ok() { "stream accepted" } else { "stream refused" });
        if generic.is_ok() && accepted != 1 {
            return Err(format!("{accepted} of the version-specific readers accept a file of version {version}"));
        }
    }
    ctx.nontrivial = p.g.iter().any(|f| f.count_estimate() > 0) || p.g.iter().any(|f| f.is_full());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "histories over four filters, one of them with other parameters and often of the other version, performed through the type for either version and through the version-specific type at the same time: results, kinds of errors, metadata, comparisons of every pair and serialized forms must agree after each operation; unions and comparisons of different versions must be refused; saved, shortened and modified streams go through the reader for either version and both version-specific readers. Non-trivial: a filter holds something at the end",
        suites: || {
            vec![
                suite(
                    "histories",
                    8_000,
                    120_000,
                    |_| {
                        (
                            history(prop_oneof![3 => spec(20_000.0), 1 => small_spec()].boxed(), Mix { bulk: 150, ..ALL }, 12),
                            prop_oneof![3 => spec(20_000.0), 1 => small_spec()],
                            prop::collection::vec(key_max(300), 0..4),
                            prop::option::weighted(0.3, (any::<u16>(), 1u8..=255)),
                            prop::option::weighted(0.2, (prop_oneof![8 => 1u8..=2, 1 => 0u8..=3, 1 => any::<u8>()], prop_oneof![4 => 0u8..=3, 1 => any::<u8>()])),
                            prop_oneof![3 => Just(0u16), 1 => any::<u16>(), 1 => 60_000u16..],
                        )
                            .prop_map(|(mut h, other, keys, patch, head, cut)| {
                                // the fourth filter takes part
                                for (n, op) in h.ops.iter_mut().enumerate() {
                                    if let Op::Union { src, .. } = op {
                                        if n % 3 == 0 {
                                            *src = 3;
                                        }
                                    }
                                }
                                Case { h, other, keys, patch, head, cut }
                            })
                            .boxed()
                    },
                    check,
                ),
            ]
        },
        processes: false,
    }
}
