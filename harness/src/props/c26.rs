//! Command line: updating a file keeps the rest of it, creating replaces all of it.

use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::model::parse;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    /// what is in the filter, by insertion and by union
    first: KeySet,
    second: KeySet,
    union: bool,
    data: Blob,
    /// no room for anything else
    full: bool,
    files: Vec<Text>,
    stdin: Option<Text>,
    jobs: Option<u8>,
    /// another filter, created over the file
    over: Option<Spec>,
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let new: Vec<Vec<String>> = c.stdin.iter().chain(&c.files).map(|t| t.entries()).collect();
    let n_new: usize = new.iter().map(|v| v.len()).sum();
    let spec = Spec { cap: (c.first.n + c.second.n + n_new) as u64 * 2 + 10, ..c.spec.clone() };
    label_spec(ctx, &spec);
    let mut f = spec.create()?;
    let mut g = spec.create()?;
    for v in c.first.iter() {
        f.insert_bytes(v).map_err(|e| format!("reference: {e}"))?;
    }
    for v in c.second.iter() {
        if c.union { &mut g } else { &mut f }.insert_bytes(v).map_err(|e| format!("reference: {e}"))?;
    }
    if c.union {
        f.union_merge(&g).map_err(|e| format!("reference: {e}"))?;
    }
    if c.full {
        // everything is there already, the capacity is reached
        for e in new.iter().flatten() {
            if f.insert_bytes(e).is_err() {
                ctx.label("no room");
                return Ok(());
            }
        }
        let mut i = 0;
        while !f.is_full() && i < 3 * spec.cap {
            let _ = f.insert_bytes(format!("filling up {i}"));
            i += 1;
        }
    }
    if c.union && !c.full && f.count_estimate() + n_new as u64 > spec.cap {
        // the estimate after a union leaves no room
        ctx.label("no room");
        return Ok(());
    }
    set_data(&mut f, c.data.bytes());
    let before = dump(&f);
    s.write("bf", &before);
    // ------------------------------------------------ insertion
    let mut a = jobs_args(c.jobs);
    a.push("insert".into());
    if c.stdin.is_some() && !c.files.is_empty() {
        a.push("--stdin".into());
    }
    a.push("bf".into());
    for (i, t) in c.files.iter().enumerate() {
        let name = format!("in{i}");
        s.write(&name, &t.bytes());
        a.push(name);
    }
    let run = |a: &[String]| {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        Poppy::new(s.path(), &a).stdin(c.stdin.as_ref().map(|t| t.bytes()).unwrap_or_default()).run()
    };
    let r = run(&a)?;
    if !r.ok() {
        return Err(format!("poppy {a:?} fails on a filter with room: {}", r.err()));
    }
    let after = s.read("bf").ok_or("the filter file is gone")?;
    for e in new.iter().flatten() {
        f.insert_bytes(e).map_err(|e| format!("reference: {e}"))?;
    }
    let want = dump(&f);
    let one_copy = c.files.len() <= 1 || c.jobs == Some(1);
    if n_new == 0 && one_copy && after != before {
        return Err(format!("poppy {a:?} without entries changes the file"));
    }
    if one_copy && after != want {
        return Err(format!("poppy {a:?} gives another file than inserting with the library"));
    }
    let (Ok(p), Ok(q), Ok(w)) = (parse(&before), parse(&after), parse(&want)) else {
        ctx.label("layout not recognised");
        return Ok(());
    };
    if (q.version, q.opt, q.cap, q.fpp_bits, q.k, q.m) != (p.version, p.opt, p.cap, p.fpp_bits, p.k, p.m) || q.body.len() != p.body.len() || q.cache.len() != p.cache.len() {
        return Err(format!("poppy {a:?} changes the parameters of the filter"));
    }
    if q.data != p.data {
        return Err(format!("poppy {a:?} changes the attached data from {} to {}", short(&p.data), short(&q.data)));
    }
    if (&q.cache, &q.body) != (&w.cache, &w.body) {
        return Err(format!("poppy {a:?} gives other bits than inserting with the library"));
    }
    ctx.label(if one_copy { "inserted in one copy" } else { "inserted in several copies" });
    if c.full {
        ctx.label("full");
    }
    // ------------------------------------------------ creation over it
    if let Some(o) = &c.over {
        let a: Vec<String> = ["create".into(), format!("--version={}", o.version), format!("-O{}", o.opt), format!("-p{}", o.fpp), format!("-c{}", o.cap), "bf".into()].into();
        let r = run(&a)?;
        if !r.ok() {
            return Err(format!("poppy {a:?} over a filter fails: {}", r.err()));
        }
        if s.read("bf") != Some(dump(&o.create()?)) {
            return Err(format!("poppy {a:?} over a filter of {} bytes does not give a new filter", after.len()));
        }
        ctx.label("created over a filter");
    }
    ctx.nontrivial = n_new > 0 && (c.first.n + c.second.n > 0 || !p.data.is_empty());
    Ok(())
}

fn any_spec() -> BoxedStrategy<Spec> {
    (version_opt(), 0u64..2_000, prop::sample::select(vec![0.5, 0.1, 0.01, 0.001, 1e-6])).prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "the real binary in a scratch directory on a filter file of either version and any level with generated entries (inserted or merged), attached data, sometimes full: insertion from standard input and up to 13 files with any number of jobs must keep parameters, attached data and bits, and with one copy give exactly the file the library gives; creation over it must leave nothing of it. Non-trivial: entries are inserted into a filter that holds entries or data",
        suites: || {
            vec![suite(
                "updates",
                2_000,
                20_000,
                |_| {
                    (
                        (any_spec(), keyset(200), keyset(200), any::<bool>(), blob(), prop::bool::weighted(0.25)),
                        prop_oneof![3 => prop::collection::vec(text(5, 60), 0..5), 1 => prop::collection::vec(text(5, 15), 5..14)],
                        prop::option::weighted(0.4, text(5, 60)),
                        jobs(),
                        prop::option::weighted(0.4, any_spec()),
                    )
                        .prop_map(|((spec, first, second, union, data, full), files, stdin, jobs, over)| Case { spec, first, second, union, data, full, files, stdin, jobs, over })
                        .boxed()
                },
                check,
            )]
        },
        processes: true,
    }
}
