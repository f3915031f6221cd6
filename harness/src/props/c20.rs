//! Command line: parameters and their display.

use super::c12::{crafted, crafted_head, Crafted};
use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use crate::model::*;
use poppy_filters::utils::ByteSize;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom, Write};

/// the largest 1024-based unit not above the value, one decimal
fn human(n: u64) -> Vec<String> {
    let (div, unit) = match n {
        0..=0x3ff => (1u64, "B"),
        0x400..=0xf_ffff => (1 << 10, "KB"),
        0x10_0000..=0x3fff_ffff => (1 << 20, "MB"),
        _ => (1 << 30, "GB"),
    };
    let x = n as f64 / div as f64;
    let mut v = vec![format!("{x:.1}{unit}")];
    // halves may be rounded either way
    for d in [-1e-9, 1e-9] {
        let y = format!("{:.1}{unit}", x * (1.0 + d));
        if !v.contains(&y) {
            v.push(y);
        }
    }
    v
}

fn check_size(n: &u64, ctx: &mut Ctx) -> Verdict {
    let got = ByteSize::from_bytes(*n as usize).to_string();
    if !human(*n).contains(&got) {
        return Err(format!("{n} bytes are displayed as {got} instead of {}", human(*n)[0]));
    }
    if ByteSize::from_bytes(*n as usize).in_bytes() as u64 != *n {
        return Err(format!("{n} bytes are converted to {} bytes", ByteSize::from_bytes(*n as usize).in_bytes()));
    }
    ctx.nontrivial = *n >= 1024;
    Ok(())
}

struct Facts {
    version: u8,
    cap: u64,
    count: u64,
    fpp: f64,
    data: u64,
    size: u64,
}

/// what show prints against what the file has
fn check_shown(out: &str, w: &Facts) -> Verdict {
    let field = |name: &str| -> Result<String, String> {
        let l: Vec<&str> = out.lines().map(|l| l.trim()).filter(|l| l.starts_with(name)).collect();
        match l.as_slice() {
            [l] => Ok(l.rsplit(" : ").next().unwrap_or("").trim().to_string()),
            _ => Err(format!("show prints {} lines for {name:?}: {out:?}", l.len())),
        }
    };
    let same = |name: &str, want: Vec<String>| -> Verdict {
        let got = field(name)?;
        if want.contains(&got) {
            Ok(())
        } else {
            Err(format!("show prints {got:?} for {name:?} instead of {:?}", want[0]))
        }
    };
    same("version", vec![w.version.to_string()])?;
    same("capacity", vec![w.cap.to_string()])?;
    same("n (", vec![w.count.to_string()])?;
    let p = field("fpp")?;
    if p.parse::<f64>().map(f64::to_bits) != Ok(w.fpp.to_bits()) {
        return Err(format!("show prints {p:?} for the probability {:?}", w.fpp));
    }
    same("Length of data", human(w.data))?;
    same("Size of bloom filter", human(w.size))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Create {
    version: Option<u8>,
    cap: Option<u64>,
    #[serde(with = "maybe")]
    fpp: Option<f64>,
    opt: Option<u8>,
    files: Option<Vec<Text>>,
    jobs: Option<u8>,
    /// spelling of the options
    style: u8,
    /// files given again, some under another name
    again: Vec<u8>,
}

mod maybe {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize<S: Serializer>(v: &Option<f64>, s: S) -> Result<S::Ok, S::Error> {
        v.map(|x| format!("{x:?}")).serialize(s)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<f64>, D::Error> {
        Option::<String>::deserialize(d)?.map(|s| s.parse().map_err(serde::de::Error::custom)).transpose()
    }
}

fn check_create(c: &Create, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let mut a = jobs_args(c.jobs);
    a.push("create".into());
    let short = c.style & 1 == 1;
    if let Some(v) = c.version {
        a.push(format!("--version={v}"));
    }
    if let Some(n) = c.cap {
        a.extend(if short { vec!["-c".into(), n.to_string()] } else { vec![format!("--capacity={n}")] });
    }
    if let Some(p) = c.fpp {
        let p = match c.style >> 1 & 3 {
            0 => format!("{p}"),
            1 => format!("{p:e}"),
            _ => format!("{p:?}"),
        };
        a.extend(if short { vec!["-p".into(), p] } else { vec![format!("--probability={p}")] });
    }
    if let Some(o) = c.opt {
        a.extend(if short { vec![format!("-O{o}")] } else { vec!["--opt-lvl".into(), o.to_string()] });
    }
    a.push("bf".into());
    let mut lines = 0u64;
    for (i, t) in c.files.iter().flatten().enumerate() {
        lines += t.entries().len() as u64;
        let name = format!("in{i}");
        s.write(&name, &t.bytes());
        a.push(name);
    }
    if let Some(f) = c.files.as_ref().filter(|f| !f.is_empty()) {
        for x in &c.again {
            let i = *x as usize % f.len();
            lines += f[i].entries().len() as u64;
            a.push(match x % 3 {
                0 => format!("./in{i}"),
                _ => format!("in{i}"),
            });
        }
        if !c.again.is_empty() {
            ctx.label("a file given twice");
        }
    }
    let from_data = c.files.as_ref().is_some_and(|f| !f.is_empty());
    let spec = Spec {
        version: c.version.unwrap_or(2),
        opt: c.opt.unwrap_or(0),
        cap: if from_data { lines } else { c.cap.unwrap_or(10_000) },
        fpp: c.fpp.unwrap_or(0.01),
    };
    let run = |a: &[String]| {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        Poppy::new(s.path(), &a).run()
    };
    let r = run(&a)?;
    if !r.ok() {
        return Err(format!("poppy {a:?} fails: {}", r.err()));
    }
    let b = s.read("bf").ok_or("no filter was written")?;
    let f = load(&b)?;
    if f.version() != spec.version || f.capacity() as u64 != spec.cap || f.fpp().to_bits() != spec.fpp.to_bits() {
        return Err(format!("poppy {a:?} makes version {} capacity {} probability {:?} instead of {spec:?}", f.version(), f.capacity(), f.fpp()));
    }
    if spec.version == 2 && b[1] != spec.opt {
        return Err(format!("poppy {a:?} makes a filter of level {} instead of {}", b[1], spec.opt));
    }
    let mine = spec.create()?;
    if !from_data && dump(&mine) != b {
        return Err(format!("poppy {a:?} makes another filter than the library"));
    }
    if f.size_in_bytes() != mine.size_in_bytes() {
        return Err(format!("poppy {a:?} makes a filter of {} bytes instead of {}", f.size_in_bytes(), mine.size_in_bytes()));
    }
    let r = run(&["show".to_string(), "bf".into()])?;
    if !r.ok() {
        return Err(format!("show fails on what poppy {a:?} made: {}", r.err()));
    }
    // the size of what is in the file besides header and data
    let size = b.len() as u64 - if spec.version == 1 { 48 } else { 56 };
    check_shown(&r.text(), &Facts { version: spec.version, cap: spec.cap, count: f.count_estimate(), fpp: spec.fpp, data: 0, size })?;
    ctx.label(if from_data { "from dataset" } else { "empty" });
    ctx.nontrivial = true;
    Ok(())
}

fn check_show(c: &Crafted, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let head = crafted_head(c);
    let data = c.data.bytes();
    let size = if c.version == 1 { c.m.div_ceil(64) * 8 } else { c.cache.div_ceil(8) + c.buckets * BUCKET as u64 };
    let end = size + if c.version == 1 { 48 } else { 56 };
    // sparse: only the parts that are read are written
    let make = || -> std::io::Result<()> {
        let mut f = std::fs::File::create(s.file("bf"))?;
        f.write_all(&head)?;
        if c.version == 2 {
            f.seek(SeekFrom::Start(48 + c.cache.div_ceil(8)))?;
            f.write_all(&c.buckets.to_le_bytes())?;
        }
        f.set_len(end)?;
        f.seek(SeekFrom::Start(end))?;
        f.write_all(&data)
    };
    if let Err(e) = make() {
        internal(format!("cannot make a sparse file: {e}"));
    }
    let r = Poppy::new(s.path(), &["show", "bf"]).run()?;
    if !r.ok() {
        if size > 1 << 28 {
            ctx.label("large file refused");
            return Ok(());
        }
        return Err(format!("show fails on a valid file: {}", r.err()));
    }
    check_shown(&r.text(), &Facts { version: c.version, cap: c.cap, count: c.count, fpp: c.fpp, data: data.len() as u64, size })?;
    ctx.label(human(size)[0].trim_start_matches(|c: char| c != 'B' && c != 'K' && c != 'M' && c != 'G').to_string());
    ctx.nontrivial = true;
    Ok(())
}

/// sizes around the limits of units
fn sizes() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>().prop_flat_map(|x| (0u32..64).prop_map(move |s| x >> s)),
        2 => (prop::sample::select(vec![10u32, 20, 30, 40]), -3000i64..3000).prop_map(|(e, d)| ((1i64 << e) + d).max(0) as u64),
        1 => 0u64..3000,
        2 => (1u64..1024, prop::sample::select(vec![10u32, 20, 30]), -600i64..600).prop_map(|(n, e, d)| ((n << e) as i64 + d).max(0) as u64),
    ]
    .boxed()
}

fn create() -> BoxedStrategy<Create> {
    let opt = |s: BoxedStrategy<u8>| prop::option::weighted(0.7, s);
    (
        opt((1u8..=2).boxed()),
        prop::option::weighted(0.8, capacity()),
        prop::option::weighted(0.8, fpp()),
        opt((0u8..=3).boxed()),
        prop::option::weighted(0.4, prop_oneof![12 => prop::collection::vec(text(8, 60), 0..7), 1 => prop::collection::vec(text(3, 20), 10..=40)]),
        jobs(),
        any::<u8>(),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..4)],
    )
        .prop_map(|(version, cap, fpp, opt, files, jobs, style, again)| {
            let mut c = Create { version, cap, fpp, opt, files, jobs, style, again };
            if let (Some(cap), Some(fpp)) = (c.cap, c.fpp) {
                c.cap = Some(Spec { version: 2, opt: 2, cap, fpp }.bounded(2e6).cap);
            } else if let Some(p) = c.fpp {
                // with 10000 or so entries
                c.fpp = Some(p.max(1e-12));
            }
            if c.files.is_some() {
                c.fpp = c.fpp.map(|p| p.max(1e-12));
            }
            c
        })
        .boxed()
}

fn shown() -> BoxedStrategy<Crafted> {
    (crafted(), prop_oneof![3 => 0u64..200_000, 2 => sizes()], any::<bool>())
        .prop_map(|(mut c, size, small)| {
            if !small {
                let size = size % (6 << 30);
                c.m = size * 8 - size % 61;
                c.cache = if c.opt < 2 { 0 } else { (size / 5 + 1).next_power_of_two() };
                c.buckets = size / BUCKET as u64 + 1;
            }
            c
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "the real binary in a scratch directory: create with any subset of options in several spellings or from datasets, its file against the request and the library; show on created files and on crafted (sparse) files of up to 6 GB with any header values, every printed field against the file. Size display also directly for u64 values around unit limits. Non-trivial: every command, sizes of 1024 and more",
        suites: || {
            vec![
                suite("size display", 100_000, 1_000_000, |_| sizes(), check_size),
                suite("create and show", 3_000, 30_000, |_| create(), check_create),
                suite("show", 3_000, 30_000, |_| shown(), check_show),
            ]
        },
        processes: true,
    }
}
