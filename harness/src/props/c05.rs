//! Save and load.

use super::{giant, Prop};
use crate::engine::*;
use crate::gens::*;
use crate::hist::*;
use crate::io::*;
use poppy_filters::{v1, v2, BloomFilter};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    before: History,
    /// a count the filter has from elsewhere
    #[serde(default)]
    count: Option<u64>,
    data: Option<Blob>,
    out: Chunks,
    inp: Chunks,
    /// 0 generic, 1 version specific
    write_via: u8,
    read_via: u8,
    probes: Vec<Key>,
    after: Vec<Op>,
}

pub fn write_via(f: &BloomFilter, w: &mut dyn std::io::Write, via: u8) -> Result<(), poppy_filters::Error> {
    let mut w = w;
    match (via % 2, f) {
        (1, BloomFilter::V1(b)) => b.write(&mut w),
        (1, BloomFilter::V2(b)) => b.write(&mut w),
        (_, f) => f.write(&mut w),
    }
}

pub fn read_via<R: std::io::Read + std::io::Seek>(r: R, version: u8, via: u8) -> Result<BloomFilter, poppy_filters::Error> {
    match (via % 2, version) {
        (1, 1) => v1::BloomFilter::from_reader(r).map(BloomFilter::V1),
        (1, _) => v2::BloomFilter::from_reader(r).map(BloomFilter::V2),
        _ => BloomFilter::from_reader(r),
    }
}

pub fn same_meta(a: &BloomFilter, b: &BloomFilter) -> Verdict {
    macro_rules! same {
        ($what:expr, $a:expr, $b:expr) => {
            if $a != $b {
                return Err(format!("{} differs after loading: {:?} became {:?}", $what, $a, $b));
            }
        };
    }
    same!("version", a.version(), b.version());
    same!("capacity", a.capacity(), b.capacity());
    same!("probability", a.fpp().to_bits(), b.fpp().to_bits());
    same!("count", a.count_estimate(), b.count_estimate());
    same!("size in bytes", a.size_in_bytes(), b.size_in_bytes());
    same!("is_full", a.is_full(), b.is_full());
    if a.data() != b.data() {
        return Err(format!("attached data of {} bytes differs after loading ({} bytes)", a.data().len(), b.data().len()));
    }
    Ok(())
}

/// performs an operation on both worlds and compares what it returns
pub fn lockstep(wa: &mut World, wb: &mut World, op: &Op) -> Verdict {
    struct Rec(Vec<String>);
    impl Obs for Rec {
        fn insert(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
            self.0.push(format!("{:?}", insert_via(&mut w[slot], v, via).map_err(|e| e.to_string())));
            Ok(())
        }
        fn fill(&mut self, w: &mut World, slot: usize, set: &KeySet, _: &mut Ctx) -> Verdict {
            self.0.push(format!("{:?}", do_fill(&mut w[slot], set.iter().collect()).map_err(|e| e.to_string())));
            Ok(())
        }
        fn contains(&mut self, w: &mut World, slot: usize, v: &[u8], via: u8, _: &mut Ctx) -> Verdict {
            self.0.push(format!("{}", contains_via(&w[slot], v, via)));
            Ok(())
        }
        fn union(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
            let c = w[dst].count_common_entries(&w[src]).map_err(|e| e.to_string());
            self.0.push(format!("{c:?} {:?}", do_union(w, dst, src, how).map_err(|e| e.to_string())));
            Ok(())
        }
        fn intersect(&mut self, w: &mut World, dst: usize, src: usize, how: u8, _: &mut Ctx) -> Verdict {
            self.0.push(format!("{:?}", do_intersect(w, dst, src, how).map_err(|e| e.to_string())));
            Ok(())
        }
    }
    let (mut a, mut b) = (Rec(vec![]), Rec(vec![]));
    let mut ctx = Ctx::default();
    exec(wa, op, &mut a, &mut ctx)?;
    exec(wb, op, &mut b, &mut ctx)?;
    if a.0 != b.0 {
        let at = a.0.iter().zip(&b.0).position(|(x, y)| x != y).unwrap_or(a.0.len().min(b.0.len()));
        return Err(format!(
            "{} gives {} on one filter and {} on the other",
            op_name(op),
            a.0.get(at).map_or("nothing", |s| s),
            b.0.get(at).map_or("nothing", |s| s)
        ));
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let Some(mut w) = run(&c.before, &mut Plain, ctx)? else { return Ok(()) };
    if let Some(d) = &c.data {
        set_data(&mut w[0], d.bytes());
    }
    if let Some(n) = c.count {
        w[0] = with_count(&w[0], n)?;
        if w[0].count_estimate() != n {
            return Err(format!("a filter saved with a count of {n} counts {} after loading", w[0].count_estimate()));
        }
        ctx.label("any count");
    }
    let f = w[0].clone();
    let plain = dump(&f);
    let mut out = ChunkWriter::new(&c.out, WFault::None);
    write_via(&f, &mut out, c.write_via).map_err(|e| format!("saving failed: {e}"))?;
    if out.out != plain {
        return Err(format!("the saved bytes depend on how the writer accepts them: {} and {} bytes", out.out.len(), plain.len()));
    }
    let g = read_via(ChunkReader::new(&out.out, &c.inp), f.version(), c.read_via)
        .map_err(|e| format!("loading a saved filter failed: {e}"))?;
    same_meta(&f, &g)?;
    if dump(&g) != plain {
        return Err("the loaded filter writes other bytes than the original".into());
    }
    if !f.has_same_params(&g) || !g.has_same_params(&f) {
        return Err("the loaded filter does not have the same parameters as the original".into());
    }
    for k in &c.probes {
        let v = k.bytes();
        if f.contains_bytes(&v) != g.contains_bytes(&v) {
            return Err(format!("contains({}) is {} for the original and {} for the loaded filter", short(&v), f.contains_bytes(&v), g.contains_bytes(&v)));
        }
    }
    let mut m = f.clone();
    m.union_merge(&g).map_err(|e| format!("the loaded filter cannot be merged into the original: {e}"))?;
    let mut m = g.clone();
    m.union_merge(&f).map_err(|e| format!("the original cannot be merged into the loaded filter: {e}"))?;
    // from now on in step
    let mut w2 = w.clone();
    w[0] = f;
    w2[0] = g;
    for op in &c.after {
        lockstep(&mut w, &mut w2, op).map_err(|e| format!("after loading: {e}"))?;
    }
    for i in 0..3 {
        same_meta(&w[i], &w2[i]).map_err(|e| format!("after further operations: {e}"))?;
        if dump(&w[i]) != dump(&w2[i]) {
            return Err("original and loaded filter differ after the same further operations".into());
        }
    }
    ctx.nontrivial = w[0].count_estimate() > 0 || !w[0].data().is_empty();
    ctx.label(format!("read via {}", c.read_via % 2));
    if c.inp.prefix > 0 {
        ctx.label("starts inside a stream");
    }
    Ok(())
}

/// Save and load cycles of big files.
fn check_big(c: &(Spec, KeySet, Blob, Chunks), ctx: &mut Ctx) -> Verdict {
    let (spec, set, data, io) = c;
    label_spec(ctx, spec);
    let Ok(mut f) = spec.create() else { return Ok(()) };
    for v in set.iter() {
        let _ = f.insert_bytes(v);
    }
    set_data(&mut f, data.bytes());
    let b = dump(&f);
    let g = BloomFilter::from_reader(ChunkReader::new(&b, io)).map_err(|e| format!("loading a saved filter of {} bytes failed: {e}", b.len()))?;
    same_meta(&f, &g)?;
    if dump(&g) != b {
        return Err("the loaded filter writes other bytes than the original".into());
    }
    for v in set.iter() {
        if f.contains_bytes(&v) != g.contains_bytes(&v) {
            return Err(format!("membership of {} differs after loading", short(&v)));
        }
    }
    ctx.nontrivial = true;
    ctx.count("bytes of big files", b.len() as u64);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a history produces a filter, now and then with any count up to 2^64-1, data is attached; it is saved through one chunking and interface and loaded through another from a random stream position; metadata, bytes, parameters, probes and a further history in lockstep must agree; plus files of several MB and up to 50 MB of attached data. Non-trivial: the filter holds values or data",
        suites: || {
            vec![
                suite(
                    "round trips",
                    20_000,
                    300_000,
                    |_| {
                        (
                            (history(prop_oneof![3 => spec(40_000.0), 1 => small_spec()].boxed(), ALL, 10), prop::option::weighted(0.15, any_count())),
                            prop::option::of(blob()),
                            chunks(),
                            chunks(),
                            any::<u8>(),
                            any::<u8>(),
                            prop::collection::vec(key(), 0..6),
                            ops(Mix { reload: 1, ..ALL }, 8),
                        )
                            .prop_map(|((before, count), data, out, inp, write_via, read_via, probes, after)| Case {
                                before,
                                count,
                                data,
                                out,
                                inp,
                                write_via,
                                read_via,
                                probes,
                                after,
                            })
                            .boxed()
                    },
                    check,
                ),
                suite(
                    "big files",
                    240,
                    2_400,
                    |t| {
                        let max = if t == Tier::Quick { 6e6 } else { 6e7 };
                        (
                            version_opt(),
                            (4.0f64..=7.0).prop_map(|e| 10f64.powf(e) as u64),
                            fpp(),
                            keyset(1000),
                            prop_oneof![blob(), (0usize..3_000_000, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed })],
                            chunks(),
                        )
                            .prop_map(move |((version, opt), cap, fpp, set, data, mut io)| {
                                if !io.sizes.is_empty() {
                                    io.sizes.push(60_000);
                                }
                                (Spec { version, opt, cap, fpp }.bounded(max), set, data, io)
                            })
                            .boxed()
                    },
                    check_big,
                ),
                suite_fixed(
                    "large data",
                    160,
                    1_200,
                    |_| {
                        (spec(20_000.0), keyset(20), big_blob(), chunks())
                            .prop_map(|(spec, set, data, mut io)| {
                                if !io.sizes.is_empty() {
                                    io.sizes.push(60_000);
                                }
                                (spec, set, data, io)
                            })
                            .boxed()
                    },
                    check_big,
                ),
                giant::suite(giant::What::RoundTrip),
            ]
        },
        processes: false,
    }
}
