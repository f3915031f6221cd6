//! Command line: insertion and lookup.

use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    jobs: Option<u8>,
    verbose: bool,
    /// which files, in which order
    files: Vec<u8>,
    stdin: Option<Text>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    files: Vec<Text>,
    /// create from the dataset, or empty
    create: Step,
    insert: Vec<Step>,
    queries: Vec<(Step, u8)>,
}

const NAMES: [&str; 6] = ["a.txt", "b.txt", "words with space", "ünïcode", "./e", "sub/f.txt.gz"];

fn args(step: &Step, rest: Vec<String>, names: &[&str]) -> Vec<String> {
    let mut a = jobs_args(step.jobs);
    if step.verbose && !a.iter().any(|x| x == "-v") {
        a.push("-v".into());
    }
    a.extend(rest);
    a.extend(names.iter().map(|n| n.to_string()));
    a
}

fn poppy(s: &Scratch, a: &[String], stdin: Option<&Text>) -> Result<Out, String> {
    let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    Poppy::new(s.path(), &a).stdin(stdin.map(|t| t.bytes()).unwrap_or_default()).run()
}

/// the parts of a file that hold bits
fn bits(f: &BloomFilter) -> Vec<u8> {
    let mut f = f.clone();
    set_data(&mut f, vec![]);
    let mut d = dump(&f);
    // the count is not part of them
    let at = if d[0] == 1 { 40 } else { 32 };
    d[at..at + 8].fill(0);
    d
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    if std::fs::create_dir(s.file("sub")).is_err() {
        internal("cannot make a directory");
    }
    for (i, t) in c.files.iter().enumerate() {
        s.write(NAMES[i], &t.bytes());
    }
    let pick = |step: &Step| -> Vec<usize> {
        if c.files.is_empty() {
            return vec![];
        }
        step.files.iter().map(|f| *f as usize % c.files.len()).collect()
    };
    let names = |v: &[usize]| -> Vec<&str> { v.iter().map(|&i| NAMES[i]).collect() };
    let content: Vec<Vec<String>> = c.files.iter().map(|t| t.entries()).collect();

    // how much room is needed for everything
    let mut total = 0u64;
    for st in &c.insert {
        total += pick(st).iter().map(|&i| content[i].len() as u64).sum::<u64>();
        total += st.stdin.as_ref().map_or(0, |t| t.entries().len() as u64);
    }
    let made = pick(&c.create);
    let from_data = !made.is_empty();
    let entries_made: u64 = made.iter().map(|&i| content[i].len() as u64).sum();
    let spec = Spec { cap: if from_data { entries_made } else { total * 2 + 50 }, ..c.spec.clone() };
    let a = args(
        &c.create,
        vec!["create".into(), "--version".into(), spec.version.to_string(), format!("-p{}", spec.fpp), format!("-O{}", spec.opt), format!("-c{}", spec.cap), "bf".into()],
        &names(&made),
    );
    let r = poppy(&s, &a, None)?;
    if !r.ok() {
        return Err(format!("poppy {a:?} failed: {}", r.err()));
    }
    // what all of it together has to give
    let mut want = spec.create()?;
    let mut all: Vec<&String> = vec![];
    for &i in &made {
        for e in &content[i] {
            want.insert_bytes(e).map_err(|e| format!("reference: {e}"))?;
            all.push(e);
        }
    }
    let stdins: Vec<Vec<String>> = c.insert.iter().map(|st| st.stdin.as_ref().map(|t| t.entries()).unwrap_or_default()).collect();
    let load_file = |s: &Scratch| s.read("bf").ok_or("the filter file is missing".to_string()).and_then(|b| load(&b));
    let verify = |want: &BloomFilter, all: &[&String], how: &str| -> Verdict {
        let got = load_file(&s)?;
        for e in all {
            if !got.contains_bytes(e) {
                return Err(format!("after {how} the entry {e:?} is missing"));
            }
        }
        if bits(&got) != bits(want) {
            return Err(format!("after {how} the bits differ from those of one by one insertion"));
        }
        Ok(())
    };
    verify(&want, &all, &format!("poppy {a:?}"))?;
    if !from_data {
        for (n, st) in c.insert.iter().enumerate() {
            let files = pick(st);
            // without files the standard input is read anyway
            let mut cmd = vec!["insert".to_string()];
            if st.stdin.is_some() && !files.is_empty() {
                cmd.push("--stdin".into());
            }
            cmd.push("bf".into());
            let a = args(st, cmd, &names(&files));
            let r = poppy(&s, &a, st.stdin.as_ref())?;
            if !r.ok() {
                return Err(format!("poppy {a:?} failed: {}", r.err()));
            }
            for e in stdins[n].iter().chain(files.iter().flat_map(|&i| content[i].iter())) {
                want.insert_bytes(e).map_err(|e| format!("reference: {e}"))?;
                all.push(e);
            }
            verify(&want, &all, &format!("poppy {a:?}"))?;
            ctx.label(match (st.stdin.is_some() || files.is_empty(), files.len()) {
                (true, 0) => "insert from stdin",
                (true, _) => "insert from stdin and files",
                (_, 1) => "insert from one file",
                _ => "insert from files",
            });
        }
    } else {
        ctx.label("create from dataset");
    }
    // lookups
    let f = load_file(&s)?;
    for (st, mode) in &c.queries {
        let files = pick(st);
        let mut cmd = vec!["check".to_string()];
        match mode % 3 {
            1 => cmd.push("--verify".into()),
            2 => cmd.push("--silent".into()),
            _ => {}
        }
        if st.stdin.is_some() && !files.is_empty() {
            cmd.push("--stdin".into());
        }
        cmd.push("bf".into());
        let a = args(st, cmd, &names(&files));
        let r = poppy(&s, &a, st.stdin.as_ref())?;
        if !r.ok() {
            return Err(format!("poppy {a:?} failed: {}", r.err()));
        }
        let asked = st.stdin.as_ref().map(|t| t.entries()).unwrap_or_default();
        let mut want: Vec<String> = vec![];
        for e in asked.iter().chain(files.iter().flat_map(|&i| content[i].iter())) {
            match (mode % 3, f.contains_bytes(e)) {
                (0, true) => want.push(format!("{e}\n")),
                (1, false) => want.push(format!("{e}: NOK\n")),
                _ => {}
            }
        }
        let out = r.text();
        let mut got: Vec<String> = out.split_inclusive('\n').map(String::from).collect();
        let single = files.len() + (st.stdin.is_some() || files.is_empty()) as usize <= 1;
        if !single {
            want.sort();
            got.sort();
        }
        if got != want {
            let miss = want.iter().find(|w| !got.contains(w));
            let extra = got.iter().find(|w| !want.contains(w));
            return Err(format!("poppy {a:?} prints {} lines instead of {}; missing {miss:?}, unexpected {extra:?}{}", got.len(), want.len(), if single { ", or another order" } else { "" }));
        }
        ctx.label(["check", "check --verify", "check --silent"][*mode as usize % 3]);
        ctx.count("lines printed by check", got.len() as u64);
    }
    ctx.nontrivial = !all.is_empty();
    ctx.count("entries", all.len() as u64);
    Ok(())
}

fn step(max_files: usize) -> BoxedStrategy<Step> {
    (jobs(), prop::bool::weighted(0.1), prop_oneof![12 => prop::collection::vec(any::<u8>(), 0..=max_files), 1 => prop::collection::vec(any::<u8>(), 10..=40)], prop::option::weighted(0.4, text(6, 100)))
        .prop_map(|(jobs, verbose, files, stdin)| Step { jobs, verbose, files, stdin })
        .boxed()
}

fn case(parts: usize, many: usize) -> BoxedStrategy<Case> {
    (
        (version_opt(), prop::sample::select(vec![0.5, 0.1, 0.01, 0.001, 1e-6])),
        prop::collection::vec(text(parts, many), 0..=6),
        step(8),
        prop::collection::vec(step(8), 0..3),
        prop::collection::vec((step(7), any::<u8>()), 0..3),
        any::<bool>(),
    )
        .prop_map(|(((version, opt), fpp), files, mut create, insert, queries, from_data)| {
            if !from_data {
                create.files.clear();
            }
            Case { spec: Spec { version, opt, cap: 0, fpp }, files, create, insert, queries }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "the real binary in a scratch directory: up to 6 generated files (LF, CRLF, unterminated, empty, duplicate, non-ASCII and long lines), create from a dataset or empty followed by inserts from files and standard input, then lookups; jobs absent, 0 and 1 to 70, up to 40 file arguments; bits and membership against one by one insertion with the library, output against its lookups. Non-trivial: at least one entry was inserted",
        suites: || vec![suite("commands", 1_600, 20_000, |_| case(8, 60), check), suite("larger files", 160, 2_000, |_| case(4, 6_000), check)],
        processes: true,
    }
}
