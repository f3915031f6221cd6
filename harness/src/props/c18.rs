//! Command line: failures damage nothing.

use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// what is at the path of the filter
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Target {
    Nothing,
    /// a filter with some entries and data
    Filter { set: KeySet, data: Blob },
    /// a filter that holds as much as it can
    Full,
    Empty,
    Text(String),
    Raw(Vec<u8>),
    /// a filter that was cut (in 1/65536 of its size)
    Cut { at: u16 },
    /// a filter with another value in the first bytes
    Header { at: u8, value: u8 },
    Directory,
}

/// the fault in one of the inputs
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    Missing,
    Directory,
    /// bytes that are not UTF-8, after this many lines
    NotUtf8 { bytes: Vec<u8>, after: u16, end: bool },
    /// many entries
    TooMany,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    /// version, capacity, probability and level as given on the command line
    Create { version: String, capacity: String, probability: String, opt: String },
    Insert,
    Check { verify: bool, silent: bool },
    Show,
    Bench { fpp: String, version: String, opt: String, tol: String, with_file: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    target: Target,
    cmd: Cmd,
    jobs: Option<u8>,
    files: Vec<Text>,
    stdin: Option<Text>,
    fault: Fault,
    /// which input has it (standard input counts as the last)
    position: u8,
}

const TOO_MANY: usize = 700;

fn not_utf8(t: &Text, bad: &[u8], after: u16, end: bool) -> Vec<u8> {
    let lines = t.lines();
    let n = after as usize % (lines.len() + 1);
    let mut b = vec![];
    for l in &lines[..n] {
        b.extend(l.as_bytes());
        b.push(b'\n');
    }
    b.extend(b"x");
    b.extend(bad);
    if end {
        return b;
    }
    b.push(b'\n');
    for l in &lines[n..] {
        b.extend(l.as_bytes());
        b.push(b'\n');
    }
    b
}

fn too_many(t: &Text, position: u8) -> Vec<u8> {
    let mut b = t.bytes();
    if !b.is_empty() && b.last() != Some(&b'\n') {
        b.push(b'\n');
    }
    for i in 0..TOO_MANY {
        b.extend(format!("one of too many entries {position} {i}\n").as_bytes());
    }
    b
}

fn describe(d: &BTreeMap<String, Option<Vec<u8>>>, e: &BTreeMap<String, Option<Vec<u8>>>) -> Option<String> {
    for (k, v) in d {
        match e.get(k) {
            None => return Some(format!("{k:?} was removed")),
            Some(w) if w != v => {
                let len = |x: &Option<Vec<u8>>| x.as_ref().map_or("directory".into(), |v| format!("{} bytes", v.len()));
                return Some(format!("{k:?} was changed ({} before, {} after)", len(v), len(w)));
            }
            _ => {}
        }
    }
    None
}

fn added(d: &BTreeMap<String, Option<Vec<u8>>>, e: &BTreeMap<String, Option<Vec<u8>>>) -> Option<String> {
    e.keys().find(|k| !d.contains_key(*k)).map(|k| format!("{k:?} was left behind"))
}

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let Ok(mut f) = c.spec.create() else { return Ok(()) };
    // ------------------------------------------------ the file of the filter
    let mut is_filter = true;
    match &c.target {
        Target::Nothing => is_filter = false,
        Target::Filter { set, data } => {
            for v in set.iter() {
                let _ = f.insert_bytes(v);
            }
            set_data(&mut f, data.bytes());
            s.write("bf", &dump(&f));
        }
        Target::Full => {
            for i in 0..5000u32 {
                if f.insert_bytes(format!("filling {i}")).is_err() {
                    break;
                }
            }
            s.write("bf", &dump(&f));
        }
        Target::Directory => {
            is_filter = false;
            let _ = std::fs::create_dir(s.file("bf"));
        }
        other => {
            let mut b = dump(&f);
            match other {
                Target::Empty => b.clear(),
                Target::Text(t) => b = t.clone().into_bytes(),
                Target::Raw(r) => b = r.clone(),
                Target::Cut { at } => {
                    let n = b.len() * *at as usize >> 16;
                    b.truncate(n);
                }
                Target::Header { at, value } => b[*at as usize % 2] = *value,
                _ => {}
            }
            is_filter = load(&b).is_ok();
            s.write("bf", &b);
        }
    }
    // ------------------------------------------------ inputs
    let reads_stdin = match &c.cmd {
        Cmd::Insert | Cmd::Check { .. } => c.stdin.is_some() || c.files.is_empty(),
        Cmd::Bench { .. } => true,
        _ => false,
    };
    let n_files = match &c.cmd {
        Cmd::Show | Cmd::Bench { .. } => 0,
        _ => c.files.len(),
    };
    let inputs = n_files + reads_stdin as usize;
    let bad = if inputs == 0 { usize::MAX } else { c.position as usize % inputs };
    let mut faulty = false;
    let mut too_many_given = false;
    let make = |t: &Text| match &c.fault {
        Fault::NotUtf8 { bytes, after, end } => not_utf8(t, bytes, *after, *end),
        Fault::TooMany => too_many(t, c.position),
        _ => t.bytes(),
    };
    let mut names = vec![];
    for (i, t) in c.files.iter().take(n_files).enumerate() {
        let name = format!("in{i}");
        match &c.fault {
            Fault::Missing if i == bad => faulty = true,
            Fault::Directory if i == bad => {
                faulty = true;
                let _ = std::fs::create_dir(s.file(&name));
            }
            _ if i == bad => {
                let b = make(t);
                faulty |= std::str::from_utf8(&b).is_err();
                too_many_given = matches!(c.fault, Fault::TooMany);
                s.write(&name, &b);
            }
            _ => {
                s.write(&name, &t.bytes());
            }
        }
        names.push(name);
    }
    let empty = Text { parts: vec![], crlf: false, end: false };
    let t = c.stdin.as_ref().unwrap_or(&empty);
    let stdin = if bad == n_files && reads_stdin { make(t) } else { t.bytes() };
    if reads_stdin && bad == n_files {
        faulty |= std::str::from_utf8(&stdin).is_err();
        too_many_given = matches!(c.fault, Fault::TooMany);
    }
    s.write("bystander", b"unrelated\n");
    // ------------------------------------------------ the command
    let mut a = jobs_args(c.jobs);
    let mut wrong_args = false;
    let valid_num = |v: &str, o: &str, p: &str| {
        let fpp = p.parse::<f64>().is_ok_and(|p| p.is_normal() && p > 0.0 && p <= 1.0);
        matches!(v.parse::<u8>(), Ok(1 | 2)) && matches!(o.parse::<u8>(), Ok(0..=3)) && fpp
    };
    match &c.cmd {
        Cmd::Create { version, capacity, probability, opt } => {
            a.extend(["create".into(), format!("--version={version}"), format!("--capacity={capacity}"), format!("--probability={probability}"), format!("--opt-lvl={opt}"), "bf".into()]);
            wrong_args = !valid_num(version, opt, probability) || capacity.parse::<usize>().is_err();
        }
        Cmd::Insert => {
            a.push("insert".into());
            if c.stdin.is_some() && !c.files.is_empty() {
                a.push("--stdin".into());
            }
            a.push("bf".into());
        }
        Cmd::Check { verify, silent } => {
            a.push("check".into());
            if *verify {
                a.push("--verify".into());
            } else if *silent {
                a.push("--silent".into());
            }
            if c.stdin.is_some() && !c.files.is_empty() {
                a.push("--stdin".into());
            }
            a.push("bf".into());
        }
        Cmd::Show => a.extend(["show".into(), "bf".into()]),
        Cmd::Bench { fpp, version, opt, tol, with_file } => {
            a.extend(["bench".into(), "-r1".into(), format!("--fp-tol={tol}"), format!("--fpp={fpp}"), format!("--version={version}"), format!("--opt={opt}")]);
            if *with_file {
                a.push("bf".into());
            } else {
                wrong_args = !valid_num(version, opt, fpp);
            }
        }
    }
    a.extend(names);
    let before = snapshot(s.path());
    let r = {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        Poppy::new(s.path(), &a).stdin(stdin).run()?
    };
    let after = snapshot(s.path());
    // ------------------------------------------------ the verdict
    let must_fail: Option<&str> = match &c.cmd {
        _ if wrong_args => Some("invalid parameters"),
        Cmd::Create { .. } => match (&c.target, is_filter) {
            (Target::Nothing, _) | (_, true) => faulty.then_some("an input that cannot be read"),
            (Target::Directory, _) => Some("a directory as output"),
            _ => Some("an existing output file that is not a filter"),
        },
        Cmd::Show => (matches!(c.target, Target::Nothing | Target::Directory)).then_some("no filter"),
        Cmd::Bench { with_file, .. } => {
            if *with_file && !is_filter {
                Some("no filter")
            } else {
                faulty.then_some("an input that cannot be read")
            }
        }
        _ if !is_filter => Some("no filter"),
        Cmd::Insert if too_many_given && c.spec.cap as usize + 50 < TOO_MANY && c.spec.fpp < 0.2 => Some("too many entries"),
        _ => faulty.then_some("an input that cannot be read"),
    };
    let cmd = format!("poppy {a:?} with {:?}", c.target);
    if let (Some(why), true) = (must_fail, r.ok()) {
        return Err(format!("{cmd} succeeds in spite of {why}"));
    }
    let read_only = matches!(c.cmd, Cmd::Check { .. } | Cmd::Show | Cmd::Bench { .. });
    if !r.ok() || read_only {
        if let Some(d) = describe(&before, &after).or_else(|| added(&before, &after)) {
            return Err(format!("{cmd} {}, but {d}", if r.ok() { "only reads".into() } else { format!("fails ({})", r.err()) }));
        }
    } else {
        // also a command that works changes nothing but the filter
        let (mut b, mut e) = (before, after);
        b.remove("bf");
        e.remove("bf");
        if let Some(d) = describe(&b, &e) {
            return Err(format!("{cmd}: {d}"));
        }
    }
    let kind = match &c.cmd {
        Cmd::Create { .. } => "create",
        Cmd::Insert => "insert",
        Cmd::Check { .. } => "check",
        Cmd::Show => "show",
        Cmd::Bench { .. } => "bench",
    };
    ctx.label(format!("{kind}: {}", if r.ok() { "succeeded" } else { must_fail.unwrap_or("failed for another reason") }));
    ctx.nontrivial = !r.ok() || read_only;
    Ok(())
}

fn number(good: &'static [&'static str], bad: &'static [&'static str]) -> BoxedStrategy<String> {
    prop_oneof![9 => prop::sample::select(good.to_vec()), 1 => prop::sample::select(bad.to_vec())].prop_map(String::from).boxed()
}

fn case(cap: BoxedStrategy<u64>, bulk: usize) -> BoxedStrategy<Case> {
    let version = || number(&["1", "2"], &["0", "3", "255", "256", "-1", "x", ""]);
    let opt = || number(&["0", "1", "2", "3"], &["4", "255", "300", "-1", "y"]);
    let fpp = || number(&["0.01", "0.5", "1e-6", "1", "0.001"], &["0", "-0.5", "1.0001", "2", "nan", "inf", "1e-320", "abc", "-inf"]);
    let capacity = number(&["10", "100", "0", "5000"], &["-1", "1.5", "99999999999999999999", "z"]);
    let target = prop_oneof![
        12 => (keyset(bulk), blob()).prop_map(|(set, data)| Target::Filter { set, data }),
        4 => Just(Target::Full),
        1 => Just(Target::Nothing),
        1 => Just(Target::Empty),
        1 => ".{0,60}".prop_map(Target::Text),
        1 => prop::collection::vec(any::<u8>(), 0..200).prop_map(Target::Raw),
        3 => any::<u16>().prop_map(|at| Target::Cut { at }),
        1 => (0u8..2, any::<u8>()).prop_map(|(at, value)| Target::Header { at, value }),
        1 => Just(Target::Directory),
    ];
    let cmd = prop_oneof![
        5 => (version(), capacity, fpp(), opt()).prop_map(|(version, capacity, probability, opt)| Cmd::Create { version, capacity, probability, opt }),
        6 => Just(Cmd::Insert),
        2 => (any::<bool>(), any::<bool>()).prop_map(|(verify, silent)| Cmd::Check { verify, silent }),
        1 => Just(Cmd::Show),
        2 => (fpp(), version(), opt(), prop::sample::select(vec!["0.2", "0", "1000"]), any::<bool>())
            .prop_map(|(fpp, version, opt, tol, with_file)| Cmd::Bench { fpp, version, opt, tol: tol.into(), with_file }),
    ];
    let bytes = prop_oneof![
        Just(vec![0xffu8]),
        Just(vec![0xc3u8]),
        Just(vec![0xc3u8, 0x28]),
        Just(vec![0xedu8, 0xa0, 0x80]),
        Just(vec![0xf0u8, 0x9f, 0x98]),
        prop::collection::vec(0x80u8..=0xff, 1..20),
    ];
    let fault = prop_oneof![
        2 => Just(Fault::None),
        3 => Just(Fault::Missing),
        2 => Just(Fault::Directory),
        4 => (bytes, any::<u16>(), any::<bool>()).prop_map(|(bytes, after, end)| Fault::NotUtf8 { bytes, after, end }),
        3 => Just(Fault::TooMany),
    ];
    let spec = (version_opt(), cap, prop::sample::select(vec![0.1, 0.01, 0.001])).prop_map(|((version, opt), cap, fpp)| Spec { version, opt, cap, fpp });
    (
        (spec, target, cmd, jobs()),
        prop_oneof![12 => prop::collection::vec(text(4, bulk / 2), 0..5), 1 => prop::collection::vec(text(2, 10), 10..=30)],
        prop::option::weighted(0.3, text(4, bulk / 2)),
        fault,
        prop_oneof![2 => Just(0u8), 2 => any::<u8>()],
    )
        .prop_map(|((spec, target, cmd, jobs), files, stdin, fault, position)| Case { spec, target, cmd, jobs, files, stdin, fault, position })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "the real binary in a scratch directory: create, insert, check, show or bench on a path that holds nothing, a filter, a full, cut, damaged or other file or a directory, with generated inputs one of which (at any position, also standard input) may be missing, a directory, not UTF-8 or too long, and with valid and invalid parameters; directory compared byte for byte before and after, exit status against what must be refused. Non-trivial: the command failed or is one that only reads",
        suites: || {
            vec![
                suite("failures", 6_000, 60_000, |_| case(prop_oneof![0u64..=3, 4u64..400].boxed(), 60), check),
                suite("larger filters", 400, 4_000, |_| case((2.5f64..=5.0).prop_map(|e| 10f64.powf(e) as u64).boxed(), 3_000), check),
            ]
        },
        processes: true,
    }
}
