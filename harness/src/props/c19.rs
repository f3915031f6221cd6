//! Command line: capacity.

use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    /// entries the filter has before
    before: u8,
    /// every source is a list of numbers of entries: those below `before` are known already
    files: Vec<Vec<u8>>,
    stdin: Option<Vec<u8>>,
    jobs: Option<u8>,
}

fn entry(i: u8) -> String {
    format!("entry number {i} of the case")
}

fn body(v: &[u8]) -> Vec<u8> {
    v.iter().map(|i| entry(*i) + "\n").collect::<String>().into_bytes()
}

/// the same filter without a limit
fn unlimited(f: &BloomFilter) -> Result<BloomFilter, String> {
    let mut d = dump(f);
    d[8..16].copy_from_slice(&(u32::MAX as u64).to_le_bytes());
    load(&d)
}

/// entries among `of` that are new to f whatever other ones of `among` have been inserted before
fn certainly_new(f: &BloomFilter, of: &BTreeSet<u8>, among: &BTreeSet<u8>) -> Result<u64, String> {
    let mut n = 0;
    for i in of {
        let mut g = f.clone();
        for j in among {
            if j != i {
                g.insert_bytes(entry(*j)).map_err(|e| format!("reference: {e}"))?;
            }
        }
        n += !g.contains_bytes(entry(*i)) as u64;
    }
    Ok(n)
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    for i in 0..c.before {
        if f.insert_bytes(entry(i)).is_err() {
            break;
        }
    }
    s.write("bf", &dump(&f));
    let cap = c.spec.cap;
    let count = f.count_estimate();
    let Ok(free) = unlimited(&f) else { return Ok(()) };
    if free.capacity() as u64 != u32::MAX as u64 || free.count_estimate() != count {
        ctx.label("layout not recognised");
        return Ok(());
    }
    let mut a = jobs_args(c.jobs);
    a.push("insert".into());
    if c.stdin.is_some() && !c.files.is_empty() {
        a.push("--stdin".into());
    }
    a.push("bf".into());
    for (i, v) in c.files.iter().enumerate() {
        let name = format!("in{i}");
        s.write(&name, &body(v));
        a.push(name);
    }
    let stdin = c.stdin.clone().unwrap_or_default();
    let r = {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        Poppy::new(s.path(), &a).stdin(body(&stdin)).run()?
    };
    // ------------------------------------------------ what is certain
    let all: BTreeSet<u8> = stdin.iter().chain(c.files.iter().flatten()).copied().collect();
    let unknown = all.iter().filter(|i| !free.contains_bytes(entry(**i))).count() as u64;
    let fits = unknown == 0 || (count + unknown <= cap && cap > 0);
    let too_many = |of: &BTreeSet<u8>| -> Result<bool, String> {
        let n = certainly_new(&free, of, &all)?;
        Ok(n > 0 && (cap == 0 || count + n > cap))
    };
    let what = || format!("poppy {a:?} with {unknown} new entries in {} files and {} lines on stdin on a filter with {count} of {cap} entries", c.files.len(), stdin.len());
    if fits && !r.ok() {
        return Err(format!("{} fails: {}", what(), r.err()));
    }
    if r.ok() && !fits {
        // one file after the other in one copy, or several copies
        let one_copy = c.files.len() <= 1 || c.jobs == Some(1);
        let std: BTreeSet<u8> = stdin.iter().copied().collect();
        if one_copy && too_many(&all)? {
            return Err(format!("{} succeeds", what()));
        }
        // a source that is too much by itself
        if too_many(&std)? {
            return Err(format!("{} succeeds", what()));
        }
        for v in &c.files {
            let of: BTreeSet<u8> = v.iter().chain(&stdin).copied().collect();
            if too_many(&of)? {
                return Err(format!("{} succeeds, although one of the files is too much alone", what()));
            }
        }
        if too_many(&all)? {
            ctx.known.push("parallel-insert-capacity".into());
            ctx.label("known: files that fit only one by one");
        } else {
            ctx.label("undecided");
        }
    }
    ctx.label(if fits { "fits" } else { "too many" });
    if f.is_full() && fits {
        ctx.label("full, nothing new");
    }
    ctx.nontrivial = !all.is_empty();
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    (
        (version_opt(), prop_oneof![1 => Just(0u64), 4 => 1u64..12, 4 => 12u64..60], prop::sample::select(vec![0.5, 0.1, 0.01, 0.001, 1e-6])).prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp }),
        prop_oneof![1 => Just(0u32), 3 => 0u32..=100, 2 => Just(100u32)],
        prop::collection::vec(prop::collection::vec((any::<bool>(), any::<u8>()), 0..30), 0..5),
        prop::option::weighted(0.3, prop::collection::vec((any::<bool>(), any::<u8>()), 0..30)),
        jobs(),
        1u32..=100,
    )
        .prop_map(|(spec, filled, files, stdin, jobs, density)| {
            let before = (spec.cap * filled as u64 / 100) as u8;
            // entries that are there, and new ones, more or less as many as fit
            let room = ((spec.cap - before as u64) * 2 * density as u64 / 100).max(1) + 1;
            let pick = |v: Vec<(bool, u8)>| -> Vec<u8> {
                v.into_iter()
                    .map(|(known, x)| if known && before > 0 { x % before } else { (before as u64 + x as u64 % room) as u8 })
                    .collect()
            };
            Case { before, files: files.into_iter().map(pick).collect(), stdin: stdin.map(pick), jobs, spec }
        })
        .boxed()
}

/// creation from a dataset works
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dataset {
    spec: Spec,
    files: Vec<Text>,
    jobs: Option<u8>,
}

fn check_dataset(c: &Dataset, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let mut a = jobs_args(c.jobs);
    a.extend(["create".into(), format!("--version={}", c.spec.version), format!("-O{}", c.spec.opt), format!("-p{}", c.spec.fpp), format!("-c{}", c.spec.cap), "bf".into()]);
    let mut n = 0;
    for (i, t) in c.files.iter().enumerate() {
        n += t.entries().len();
        let name = format!("in{i}");
        s.write(&name, &t.bytes());
        a.push(name);
    }
    let r = {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        Poppy::new(s.path(), &a).run()?
    };
    if !r.ok() {
        return Err(format!("poppy {a:?} with {n} entries in {} files fails: {}", c.files.len(), r.err()));
    }
    let f = load(&s.read("bf").ok_or("no filter was written")?)?;
    for e in c.files.iter().flat_map(|t| t.entries()) {
        if !f.contains_bytes(&e) {
            return Err(format!("poppy {a:?} succeeds, but {e:?} is missing"));
        }
    }
    let distinct: BTreeSet<_> = c.files.iter().flat_map(|t| t.entries()).collect();
    if f.capacity() < distinct.len() {
        return Err(format!("poppy {a:?} with {} distinct entries chooses a capacity of {}", distinct.len(), f.capacity()));
    }
    ctx.label("created");
    ctx.nontrivial = n > 0;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "the real binary in a scratch directory: filters of capacity 0 to 60 filled to 0 to 100 %, entries known and new over up to 5 files and standard input, any number of jobs; the outcome against the number of entries that are certainly new or known (looked up with the library, independently of its capacity check). Second suite: create from generated datasets always works and the capacity is at least the number of distinct entries. Non-trivial: at least one entry is given",
        suites: || {
            vec![
                suite("insert", 6_000, 60_000, |_| case(), check),
                suite(
                    "create from dataset",
                    2_000,
                    20_000,
                    |_| {
                        (
                            (version_opt(), prop_oneof![Just(0u64), 1u64..100], fpp()).prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp: fpp.max(1e-12) }),
                            prop_oneof![12 => prop::collection::vec(text(8, 60), 1..7), 1 => prop::collection::vec(text(3, 20), 10..=40)],
                            jobs(),
                        )
                            .prop_map(|(spec, files, jobs)| Dataset { spec, files, jobs })
                            .boxed()
                    },
                    check_dataset,
                ),
            ]
        },
        processes: true,
    }
}
