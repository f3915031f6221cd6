//! Input and output failures.

use super::c05::{read_via, same_meta, write_via};
use super::Prop;
use crate::cli::*;
use crate::engine::*;
use crate::gens::*;
use crate::hist::label_spec;
use crate::io::*;
use crate::model::*;
use poppy_filters::BloomFilter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Subject {
    spec: Spec,
    set: KeySet,
    data: Blob,
}

impl Subject {
    fn build(&self) -> Option<BloomFilter> {
        let mut f = self.spec.create().ok()?;
        for v in self.set.iter() {
            let _ = f.insert_bytes(v);
        }
        set_data(&mut f, self.data.bytes());
        Some(f)
    }
}

fn subject(max: f64, data: usize) -> BoxedStrategy<Subject> {
    (
        prop_oneof![2 => spec(max), 1 => small_spec()].prop_map(move |s| s.bounded(max)),
        keyset(200),
        prop_oneof![1 => Just(Blob::Lit(vec![])), 2 => (0..=data, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed })],
    )
        .prop_map(|(spec, set, data)| Subject { spec, set, data })
        .boxed()
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
];

/// one write with one fault
fn write_fault(f: &BloomFilter, full: &[u8], io: &Chunks, fault: WFault, kind: usize, via: u8) -> Verdict {
    let mut w = ChunkWriter::new(io, fault);
    w.kind = KINDS[kind % KINDS.len()];
    let r = write_via(f, &mut w, via);
    let must_fail = match fault {
        WFault::None => false,
        WFault::Flush => true,
        WFault::Err(at) | WFault::Zero(at) | WFault::Full(at) | WFault::Once(at) => at < full.len(),
    };
    match r {
        Ok(()) if must_fail => Err(format!(
            "writing reported success although the writer failed ({fault:?}, {:?}); {} of {} bytes reached it",
            w.kind,
            w.out.len(),
            full.len()
        )),
        Ok(()) if w.out != full => {
            Err(format!("writing reported success but {} of {} bytes reached the writer", w.out.len(), full.len()))
        }
        Ok(()) => Ok(()),
        Err(e) if !must_fail => Err(format!("writing to a working writer failed ({fault:?}): {e}")),
        Err(_) => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WriteCase {
    subject: Subject,
    io: Chunks,
    kind: usize,
    via: u8,
    /// offsets in 1/65536; empty: every offset
    at: Vec<u16>,
}

fn check_write(c: &WriteCase, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.subject.spec);
    let Some(f) = c.subject.build() else { return Ok(()) };
    let full = dump(&f);
    write_fault(&f, &full, &c.io, WFault::None, c.kind, c.via)?;
    write_fault(&f, &full, &c.io, WFault::Flush, c.kind, c.via)?;
    let offsets: Vec<usize> = if c.at.is_empty() {
        (0..=full.len()).collect()
    } else {
        let mut v: Vec<usize> = c.at.iter().map(|a| (*a as usize * full.len()) >> 16).collect();
        // the end, and the places where buffers are passed on
        v.extend([full.len() - 1, full.len(), full.len() - full.len() % 8192, full.len() - f.data().len()]);
        v
    };
    for (i, at) in offsets.iter().enumerate() {
        let fault = match (i + c.kind) % 4 {
            0 => WFault::Err(*at),
            1 => WFault::Full(*at),
            2 => WFault::Once(*at),
            _ => WFault::Zero(*at),
        };
        write_fault(&f, &full, &c.io, fault, c.kind + i, c.via)?;
        ctx.count("write faults", 1);
    }
    ctx.nontrivial = true;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadCase {
    subject: Subject,
    io: Chunks,
    kind: usize,
    via: u8,
    at: Vec<u16>,
    /// the failure does not come back
    once: bool,
}

fn check_read(c: &ReadCase, ctx: &mut Ctx) -> Verdict {
    label_spec(ctx, &c.subject.spec);
    let Some(f) = c.subject.build() else { return Ok(()) };
    let full = dump(&f);
    let Ok(p) = parse(&full) else {
        ctx.label("layout not recognised");
        return Ok(());
    };
    let kind = |i: usize| KINDS[(c.kind + i) % KINDS.len()];
    // without a fault
    read_via(ChunkReader::new(&full, &c.io), f.version(), c.via).map_err(|e| format!("loading from a working reader failed: {e}"))?;
    let part = BloomFilter::partial_from_reader(ChunkReader::new(&full, &c.io)).map_err(|e| format!("partial load from a working reader failed: {e}"))?;
    same_meta(&f, &part)?;
    let offsets: Vec<usize> = if c.at.is_empty() {
        (0..full.len()).collect()
    } else {
        let mut v: Vec<usize> = c.at.iter().map(|a| (*a as usize * full.len()) >> 16).collect();
        v.extend([0, 1, 7, 8, 47, 48, full.len() - 1, p.fixed_len() - 1, p.fixed_len()]);
        v.retain(|&at| at < full.len());
        v
    };
    let count_at = V2_HEADER + p.cache.len();
    for (i, &at) in offsets.iter().enumerate() {
        let reader = || {
            let mut r = ChunkReader::new(&full, &c.io);
            r.bad = Some(at);
            r.once = c.once;
            r.kind = kind(i);
            r
        };
        if read_via(reader(), f.version(), c.via).is_ok() {
            return Err(format!("loading succeeded although reading byte {at} of {} failed with {:?}", full.len(), kind(i)));
        }
        let needed = at < 48 || at >= p.fixed_len() || (p.version == 2 && at >= count_at && at < count_at + 8);
        match BloomFilter::partial_from_reader(reader()) {
            Ok(_) if needed => {
                return Err(format!("a partial load succeeded although reading byte {at} of {} failed with {:?}", full.len(), kind(i)));
            }
            Ok(g) => same_meta(&f, &g).map_err(|e| format!("partial load with an unreadable byte {at}: {e}"))?,
            Err(_) => {}
        }
        ctx.count("read faults", 2);
    }
    // seeking fails
    let mut r = ChunkReader::new(&full, &c.io);
    r.seek_fails = true;
    r.kind = kind(0);
    if let Ok(g) = BloomFilter::partial_from_reader(r) {
        same_meta(&f, &g).map_err(|e| format!("partial load while seeking fails: {e}"))?;
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- command line

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CliCase {
    subject: Subject,
    jobs: u8,
    /// 0 create empty, 1 create from dataset, 2 insert from file, 3 insert from stdin
    mode: u8,
    /// limit in 1/60000 of the complete size, above: no failure
    limit: u16,
    lines: Vec<String>,
}

fn check_cli(c: &CliCase, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    let spec = &c.subject.spec;
    let mode = c.mode % 4;
    let text = c.lines.join("\n").into_bytes();
    s.write("in.txt", &text);
    let args = |file: &str| {
        let mut a: Vec<String> = vec!["-j".into(), (c.jobs % 4).to_string()];
        if mode < 2 {
            a.extend(["create", "--version"].map(String::from));
            a.extend([spec.version.to_string(), format!("-c{}", spec.cap), format!("-p{}", spec.fpp), format!("-O{}", spec.opt)]);
        } else {
            a.push("insert".into());
        }
        a.push(file.into());
        if mode == 1 || mode == 2 {
            a.push("in.txt".into());
        }
        a
    };
    let run = |file: &str, limit: Option<u64>| {
        let a = args(file);
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        Poppy::new(s.path(), &a).stdin(text.clone()).fsize(limit).run()
    };
    if mode >= 2 {
        let Some(f) = c.subject.build() else { return Ok(()) };
        s.write("f", &dump(&f));
        s.write("ref", &dump(&f));
    }
    // what it gives when there is room
    if !run("ref", None)?.ok() {
        ctx.label("refused for another reason");
        return Ok(());
    }
    let want = s.read("ref").unwrap_or_default().len() as u64;
    let room = want * c.limit as u64 / 60_000;
    let r = run("f", Some(room))?;
    let got = s.read("f").map(|b| b.len() as u64);
    if r.ok() && got != Some(want) {
        return Err(format!("poppy {:?} succeeded with room for {room} bytes, but the file has {got:?} of {want} bytes", args("f")));
    }
    ctx.label(if room < want { "file size limit hit" } else { "enough room" });
    if !r.ok() && room >= want {
        ctx.label("failed with enough room");
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "filters of all kinds; a failure (error, zero length write, short write then error; nine error kinds; persistent or once) at every byte offset of small files and at generated offsets of larger ones, for writing, full and partial loading; failing flush and seek; interrupted and short transfers; the command line tool under a file size limit. Non-trivial: at least one fault was injected",
        suites: || {
            vec![
                suite(
                    "every write offset",
                    160,
                    4_000,
                    |_| {
                        (subject(6000.0, 3000), chunks(), 0usize..9, any::<u8>())
                            .prop_map(|(subject, io, kind, via)| WriteCase { subject, io, kind, via, at: vec![] })
                            .boxed()
                    },
                    check_write,
                ),
                suite(
                    "write offsets",
                    8_000,
                    150_000,
                    |_| {
                        (subject(60_000.0, 30_000), chunks(), 0usize..9, any::<u8>(), prop::collection::vec(any::<u16>(), 1..8))
                            .prop_map(|(subject, io, kind, via, at)| WriteCase { subject, io, kind, via, at })
                            .boxed()
                    },
                    check_write,
                ),
                suite(
                    "every read offset",
                    160,
                    4_000,
                    |_| {
                        (subject(6000.0, 3000), chunks(), 0usize..9, any::<u8>(), any::<bool>())
                            .prop_map(|(subject, io, kind, via, once)| ReadCase { subject, io, kind, via, at: vec![], once })
                            .boxed()
                    },
                    check_read,
                ),
                suite(
                    "read offsets",
                    8_000,
                    150_000,
                    |_| {
                        (subject(60_000.0, 30_000), chunks(), 0usize..9, any::<u8>(), prop::collection::vec(any::<u16>(), 1..8), any::<bool>())
                            .prop_map(|(subject, io, kind, via, at, once)| ReadCase { subject, io, kind, via, at, once })
                            .boxed()
                    },
                    check_read,
                ),
                suite_fixed(
                    "large writes",
                    240,
                    2_400,
                    |_| {
                        (subject(2e6, 1_000_000), chunks(), 0usize..9, any::<u8>(), prop::collection::vec(any::<u16>(), 1..4))
                            .prop_map(|(subject, mut io, kind, via, at)| {
                                io.sizes.push(60_000);
                                WriteCase { subject, io, kind, via, at }
                            })
                            .boxed()
                    },
                    check_write,
                ),
                suite_fixed(
                    "large reads",
                    240,
                    2_400,
                    |_| {
                        (subject(2e6, 1_000_000), chunks(), 0usize..9, any::<u8>(), prop::collection::vec(any::<u16>(), 1..4), any::<bool>())
                            .prop_map(|(subject, mut io, kind, via, at, once)| {
                                io.sizes.push(60_000);
                                ReadCase { subject, io, kind, via, at, once }
                            })
                            .boxed()
                    },
                    check_read,
                ),
                suite(
                    "command line",
                    500,
                    10_000,
                    |_| {
                        (subject(60_000.0, 20_000), any::<u8>(), any::<u8>(), any::<u16>(), prop::collection::vec("[a-z]{0,12}", 0..20))
                            .prop_map(|(mut subject, jobs, mode, limit, lines)| {
                                subject.spec.cap += 200;
                                CliCase { subject, jobs, mode, limit, lines }
                            })
                            .boxed()
                    },
                    check_cli,
                ),
            ]
        },
        processes: true,
    }
}
