//! Python bindings.

use super::Prop;
use crate::cli::{Poppy, Scratch};
use crate::engine::*;
use crate::gens::*;
use poppy_filters::{BloomFilter, Error};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{self, Receiver};
use std::time::Duration;

// ---------------------------------------------------------------- the worker

struct Worker {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
}

impl Worker {
    fn start() -> Worker {
        let so = std::env::var("POPPY_SO").unwrap_or_else(|_| internal("POPPY_SO is not set"));
        let mut c = Command::new("/usr/bin/python3");
        c.arg("-I").arg(concat!(env!("CARGO_MANIFEST_DIR"), "/pyworker.py")).arg(so);
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let mut child = c.spawn().unwrap_or_else(|e| internal(format!("cannot start Python: {e}")));
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let (tx, lines) = mpsc::channel();
        std::thread::spawn(move || {
            for l in out.lines() {
                if l.map_or(true, |l| tx.send(l).is_err()) {
                    break;
                }
            }
        });
        Worker { child, stdin, lines }
    }

    fn ask(&mut self, v: &Value) -> Result<Value, String> {
        let mut l = v.to_string();
        l.push('\n');
        let sent = self.stdin.write_all(l.as_bytes()).and_then(|_| self.stdin.flush());
        let got = if sent.is_ok() { self.lines.recv_timeout(Duration::from_secs(60)).map_err(|e| e.to_string()) } else { Err("closed".into()) };
        match got {
            Ok(l) => serde_json::from_str(&l).map_err(|e| format!("the answer of Python is not understood ({e}): {l}")),
            Err(_) => {
                // ended, or does not answer
                std::thread::sleep(Duration::from_millis(200));
                let m = match self.child.try_wait() {
                    Ok(Some(st)) => format!("the Python interpreter ended with {:?}, signal {:?}", st.code(), st.signal()),
                    _ => "a call from Python did not end within 60 s".to_string(),
                };
                let _ = self.child.kill();
                let _ = self.child.wait();
                Err(m)
            }
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn ask(v: &Value) -> Result<Value, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let mut n = Worker::start();
            // a worker that cannot be used at all says nothing about a particular call
            if let Err(e) = n.ask(&json!({"op": "reset"})) {
                internal(format!("cannot use the Python module: {e}"));
            }
            *w = Some(n);
        }
        let r = w.as_mut().unwrap().ask(v);
        if r.is_err() {
            *w = None;
        }
        r
    })
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    New { slot: u8, how: u8, spec: Spec },
    Insert { slot: u8, key: Key, text: bool },
    InsertMany { slot: u8, set: KeySet },
    FillUp { slot: u8, seed: u64 },
    Contains { slot: u8, key: Key, text: bool },
    Union { slot: u8, src: u8 },
    Common { slot: u8, src: u8 },
    Dumps { slot: u8 },
    /// the dump of src, modified (position in the header or anywhere, value), cut (1/65536), with appended data
    Loads { slot: u8, src: u8, edits: Vec<(u32, u8)>, cut: Option<u16>, data: Blob },
    Raw { slot: u8, bytes: Vec<u8> },
    Save { slot: u8, name: u8 },
    Load { slot: u8, name: u8 },
    /// save with room for this part (1/60000) of the file
    SaveLimited { slot: u8, name: u8, room: u16 },
    /// arguments of a wrong type or out of range
    Wrong { slot: u8, which: u8 },
    /// the library writes the file
    LibSave { slot: u8, name: u8 },
    /// the command line tool adds an entry to the file
    Cli { slot: u8, name: u8, text: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    spec: Spec,
    calls: Vec<Call>,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn crc32(b: &[u8]) -> u32 {
    thread_local! {
        static T: [u32; 256] = std::array::from_fn(|i| (0..8).fold(i as u32, |c, _| if c & 1 == 1 { 0xedb88320 ^ c >> 1 } else { c >> 1 }));
    }
    T.with(|t| !b.iter().fold(!0u32, |c, x| t[((c ^ *x as u32) & 255) as usize] ^ c >> 8))
}

fn state(f: &BloomFilter) -> Value {
    let d = dump(f);
    json!({
        "version": f.version(),
        "capacity": f.capacity(),
        "fpp": hex(&f.fpp().to_be_bytes()),
        "count": f.count_estimate(),
        "full": f.is_full(),
        "data": crc32(f.data()),
        "len": d.len(),
        "crc": crc32(&d),
    })
}

/// Compares one answer. `want`: the value or the exceptions that are allowed.
fn compare(what: &str, r: &Value, want: &Result<Value, Vec<&str>>) -> Verdict {
    let err = r.get("err").and_then(|e| e.as_array());
    match (want, err) {
        (Ok(v), None) => {
            if r.get("ok") != Some(v) {
                return Err(format!("{what} returns {} in Python and {v} in the library", short_json(r.get("ok"))));
            }
        }
        (Err(allowed), Some(classes)) => {
            if !classes.iter().any(|c| allowed.iter().any(|a| c == a)) {
                return Err(format!("{what} raises {} in Python instead of {allowed:?}: {}", classes[0], r["msg"]));
            }
        }
        (Ok(v), Some(c)) => return Err(format!("{what} raises {} ({}) in Python and gives {} in the library", c[0], r["msg"], short_json(Some(v)))),
        (Err(e), None) => return Err(format!("{what} gives {} in Python and an error in the library ({e:?} expected)", short_json(r.get("ok")))),
    }
    Ok(())
}

fn short_json(v: Option<&Value>) -> String {
    let s = v.map_or("nothing".into(), |v| v.to_string());
    s.chars().take(80).collect()
}

const VALUE: &str = "ValueError";
const OS: &str = "OSError";

fn check(c: &Case, ctx: &mut Ctx) -> Verdict {
    let s = Scratch::new();
    ask(&json!({"op": "reset"}))?;
    let mut slots: [Option<BloomFilter>; 3] = [None, None, None];
    let path = |name: &u8| s.file(["a", "b", "c d", "missing/e", "."][*name as usize % 5]);
    let mut done = 0u64;
    for call in &c.calls {
        let mut what = format!("{call:?}");
        if what.len() > 300 {
            what = what.chars().take(300).collect();
        }
        // what Python is asked, what the library says, which filters are compared
        let i = |x: &u8| *x as usize % 3;
        let e2 = |e: Error| {
            let _ = e;
            vec![VALUE]
        };
        match call {
            Call::New { slot, how, spec } => {
                let f = hex(&spec.fpp.to_be_bytes());
                let (ask_for, made) = match how % 4 {
                    0 => (json!({"op": "new", "slot": i(slot), "cap": spec.cap, "fpp": f}), BloomFilter::with_capacity(spec.cap as usize, spec.fpp)),
                    1 => (json!({"op": "new_kw", "slot": i(slot), "cap": spec.cap, "fpp": f}), BloomFilter::with_capacity(spec.cap as usize, spec.fpp)),
                    2 => (
                        json!({"op": "with_version", "slot": i(slot), "version": spec.version, "cap": spec.cap, "fpp": f}),
                        BloomFilter::with_version_capacity(spec.version, spec.cap as usize, spec.fpp),
                    ),
                    _ => (
                        json!({"op": "with_params", "slot": i(slot), "version": spec.version, "cap": spec.cap, "fpp": f, "opt": spec.opt}),
                        poppy_filters::OptLevel::try_from(spec.opt).map_err(Error::from).and_then(|o| BloomFilter::with_version_capacity_opt(spec.version, spec.cap as usize, spec.fpp, o)),
                    ),
                };
                let r = ask(&ask_for).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &made.as_ref().map(|_| Value::Null).map_err(|_| vec![VALUE]))?;
                ctx.label(if made.is_ok() { "created" } else { "creation refused" });
                if let Ok(f) = made {
                    slots[i(slot)] = Some(f);
                }
                same_states(&what, &r, &slots)?;
            }
            Call::Insert { slot, key, text } | Call::Contains { slot, key, text } => {
                let Some(f) = &mut slots[i(slot)] else { continue };
                let v = key.bytes();
                let kind = if *text && std::str::from_utf8(&v).is_ok() { "str" } else { "bytes" };
                let (op, want) = if matches!(call, Call::Insert { .. }) {
                    ("insert", f.insert_bytes(&v).map(Value::from).map_err(e2))
                } else {
                    ("contains", Ok(Value::from(f.contains_bytes(&v))))
                };
                let r = ask(&json!({"op": format!("{op}_{kind}"), "slot": i(slot), "value": hex(&v)})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &want)?;
                let found = Ok(Value::from(f.contains_bytes(&v)));
                same_states(&what, &r, &slots)?;
                if op == "insert" {
                    // what was inserted is looked up at once, as str where possible and as bytes
                    for kind in ["str", "bytes"] {
                        if kind == "bytes" || std::str::from_utf8(&v).is_ok() {
                            let r = ask(&json!({"op": format!("contains_{kind}"), "slot": i(slot), "value": hex(&v)})).map_err(|e| format!("{what}: {e}"))?;
                            compare(&format!("lookup ({kind}) after {what}"), &r, &found)?;
                        }
                    }
                }
                ctx.label(format!("{op} {kind}"));
                if want.is_err() {
                    ctx.label("insertion refused");
                }
            }
            Call::InsertMany { slot, set } => {
                for v in set.iter() {
                    let Some(f) = &mut slots[i(slot)] else { continue };
                    let want = f.insert_bytes(&v).map(Value::from).map_err(e2);
                    let r = ask(&json!({"op": "insert_bytes", "slot": i(slot), "value": hex(&v)})).map_err(|e| format!("{what}: {e}"))?;
                    compare(&what, &r, &want)?;
                    same_states(&what, &r, &slots)?;
                }
            }
            Call::FillUp { slot, seed } => {
                for n in 0..60u64 {
                    let Some(f) = &mut slots[i(slot)] else { continue };
                    let v = gen_bytes(Style::Ascii, 10, mix(*seed).wrapping_add(n));
                    let want = f.insert_bytes(&v).map(Value::from).map_err(e2);
                    let r = ask(&json!({"op": "insert_str", "slot": i(slot), "value": hex(&v)})).map_err(|e| format!("{what}: {e}"))?;
                    compare(&what, &r, &want)?;
                    same_states(&what, &r, &slots)?;
                    if want.is_err() {
                        ctx.label("insertion refused");
                        break;
                    }
                }
            }
            Call::Union { slot, src } => {
                // the same object twice cannot be passed in Python
                if i(slot) == i(src) {
                    continue;
                }
                let Some(o) = slots[i(src)].clone() else { continue };
                let Some(f) = &mut slots[i(slot)] else { continue };
                let want = f.union_merge(&o).map(|_| Value::Null).map_err(e2);
                let r = ask(&json!({"op": "union", "slot": i(slot), "src": i(src)})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &want)?;
                same_states(&what, &r, &slots)?;
                ctx.label(if want.is_ok() { "union" } else { "union refused" });
            }
            Call::Common { slot, src } => {
                let (Some(f), Some(o)) = (&slots[i(slot)], &slots[i(src)]) else { continue };
                let want = f.count_common_entries(o).map(Value::from).map_err(e2);
                let r = ask(&json!({"op": "common", "slot": i(slot), "src": i(src)})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &want)?;
                same_states(&what, &r, &slots)?;
                ctx.label(if want.is_ok() { "common" } else { "common refused" });
            }
            Call::Dumps { slot } => {
                let Some(f) = &slots[i(slot)] else { continue };
                let r = ask(&json!({"op": "dumps", "slot": i(slot)})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &Ok(Value::from(hex(&dump(f)))))?;
            }
            Call::Loads { .. } | Call::Raw { .. } => {
                let (slot, b) = match call {
                    Call::Loads { slot, src, edits, cut, data } => {
                        let Some(f) = &slots[i(src)] else { continue };
                        let mut b = dump(f);
                        b.extend(data.bytes());
                        for (at, v) in edits {
                            // mostly in the header
                            let n = if at & 1 == 0 { b.len().min(64) } else { b.len() };
                            b[*at as usize % n] = *v;
                        }
                        if let Some(c) = cut {
                            b.truncate(b.len() * *c as usize >> 16);
                        }
                        (slot, b)
                    }
                    Call::Raw { slot, bytes } => (slot, bytes.clone()),
                    _ => continue,
                };
                // so many hash functions take for ever, in Python as in the library
                if b.len() >= 32 && crate::model::le64(&b, 24) > 10_000 {
                    continue;
                }
                let got = BloomFilter::from_reader(std::io::Cursor::new(&b));
                let r = ask(&json!({"op": "loads", "slot": i(slot), "value": hex(&b)})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &got.as_ref().map(|_| Value::Null).map_err(|_| vec![VALUE]))?;
                ctx.label(if got.is_ok() { "loads" } else { "loads refused" });
                if let Ok(f) = got {
                    slots[i(slot)] = Some(f);
                }
                same_states(&what, &r, &slots)?;
            }
            Call::Save { slot, name } | Call::LibSave { slot, name } => {
                let Some(f) = &slots[i(slot)] else { continue };
                let p = path(name);
                if matches!(call, Call::LibSave { .. }) {
                    let _ = std::fs::write(&p, dump(f));
                    continue;
                }
                let r = ask(&json!({"op": "save", "slot": i(slot), "path": p})).map_err(|e| format!("{what}: {e}"))?;
                let bad = name % 5 >= 3;
                compare(&what, &r, &if bad { Err(vec![OS]) } else { Ok(Value::Null) })?;
                if !bad && std::fs::read(&p).ok() != Some(dump(f)) {
                    return Err(format!("{what} writes another file than the library"));
                }
                same_states(&what, &r, &slots)?;
                ctx.label(if bad { "save refused" } else { "save" });
            }
            Call::SaveLimited { slot, name, room } => {
                let Some(f) = &slots[i(slot)] else { continue };
                let p = path(&(name % 3));
                let d = dump(f);
                let room = d.len() as u64 * *room as u64 / 60_000;
                let r = ask(&json!({"op": "save", "slot": i(slot), "path": p, "fsize": room})).map_err(|e| format!("{what}: {e}"))?;
                let bad = room < d.len() as u64;
                compare(&what, &r, &if bad { Err(vec![OS, VALUE]) } else { Ok(Value::Null) })?;
                same_states(&what, &r, &slots)?;
                if bad {
                    let _ = std::fs::remove_file(&p);
                } else if std::fs::read(&p).ok() != Some(d) {
                    return Err(format!("{what} writes another file than the library"));
                }
                ctx.label(if bad { "save without room" } else { "save" });
            }
            Call::Wrong { slot, which } => {
                if slots[i(slot)].is_none() {
                    continue;
                }
                let r = ask(&json!({"op": "wrong", "slot": i(slot), "which": which})).map_err(|e| format!("{what}: {e}"))?;
                compare(&format!("{what} ({})", r["what"]), &r, &Err(vec!["Exception"]))?;
                same_states(&what, &r, &slots)?;
                ctx.label("wrong arguments refused");
            }
            Call::Load { slot, name } => {
                let p = path(name);
                let want = match (std::fs::read(&p), p.is_dir()) {
                    (Ok(b), _) => BloomFilter::from_reader(std::io::Cursor::new(b)).map_err(|_| vec![VALUE]),
                    // opening works, reading does not
                    (Err(_), true) => Err(vec![OS, VALUE]),
                    (Err(_), false) => Err(vec![OS]),
                };
                let r = ask(&json!({"op": "load", "slot": i(slot), "path": p})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &want.as_ref().map(|_| Value::Null).map_err(|e| e.clone()))?;
                ctx.label(if want.is_ok() { "load" } else { "load refused" });
                if let Ok(f) = want {
                    slots[i(slot)] = Some(f);
                }
                same_states(&what, &r, &slots)?;
            }
            Call::Cli { slot, name, text } => {
                // Python saves, the tool inserts and finds, Python loads
                let Some(f) = &slots[i(slot)] else { continue };
                let name = name % 3;
                let p = path(&name);
                let r = ask(&json!({"op": "save", "slot": i(slot), "path": p})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &Ok(Value::Null))?;
                let mut g = f.clone();
                let line = format!("{text}\n").into_bytes();
                let want = g.insert_bytes(text);
                let out = Poppy::new(s.path(), &["insert"]).arg(p.clone()).stdin(line.clone()).run()?;
                if out.ok() != want.is_ok() {
                    return Err(format!("{what}: poppy insert on a file saved by Python gives {} and the library {want:?}", out.err()));
                }
                let out = Poppy::new(s.path(), &["check"]).arg(p.clone()).stdin(line.clone()).run()?;
                let found = g.contains_bytes(text);
                if !out.ok() || out.stdout.is_empty() == found {
                    return Err(format!("{what}: poppy check prints {:?}, the library says {found}: {}", out.text(), out.err()));
                }
                let r = ask(&json!({"op": "load", "slot": i(slot), "path": p})).map_err(|e| format!("{what}: {e}"))?;
                compare(&what, &r, &Ok(Value::Null))?;
                if want.is_ok() && std::fs::read(&p).ok() != Some(dump(&g)) {
                    return Err(format!("{what}: poppy insert writes another file than the library"));
                }
                slots[i(slot)] = Some(load(&std::fs::read(&p).unwrap_or_default())?);
                same_states(&what, &r, &slots)?;
                ctx.label("command line tool between");
            }
        }
        done += 1;
    }
    ctx.nontrivial = done > 2;
    ctx.count("calls", done);
    Ok(())
}

/// the filters Python touched against those of the library
fn same_states(what: &str, r: &Value, slots: &[Option<BloomFilter>; 3]) -> Verdict {
    if let Some(e) = r.get("states_err") {
        return Err(format!("after {what}: looking at the filter raises {e}"));
    }
    let Some(m) = r.get("states").and_then(|s| s.as_object()) else { return Ok(()) };
    for (k, v) in m {
        let Some(f) = k.parse::<usize>().ok().and_then(|i| slots[i].as_ref()) else {
            return Err(format!("after {what}: Python has a filter in slot {k}, the library has none"));
        };
        let want = state(f);
        if &want != v {
            for (name, w) in want.as_object().unwrap() {
                if v.get(name) != Some(w) {
                    return Err(format!("after {what}: {name} is {} in Python and {w} in the library", v[name]));
                }
            }
        }
    }
    Ok(())
}

/// text in several scripts, in upper and lower case, composed and decomposed
fn letters() -> BoxedStrategy<Key> {
    "[a-zA-Z0-9 \t\u{0}À-žİıſΑ-ωЀ-яẞﬁ一-丐\u{300}-\u{303}😀-😄\u{feff}\u{200b}]{0,20}".prop_map(|s| Key::Lit(s.into_bytes())).boxed()
}

fn call(spec: Spec) -> BoxedStrategy<Call> {
    let s = || 0u8..3;
    let name = || prop_oneof![6 => Just(0u8), 2 => 1u8..3, 2 => 3u8..5];
    let same = Just(spec).boxed();
    let odd_fpp = prop_oneof![fpp(), prop::sample::select(vec![0.0, -1.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-310])];
    let odd = (any::<u8>(), any::<u8>(), 0u64..300, odd_fpp).prop_map(|(version, opt, cap, fpp)| Spec { version: if version < 150 { version % 3 } else { version }, opt: opt % 6, cap, fpp: if fpp.is_nan() { f64::NAN } else { fpp } });
    let other = small_spec();
    prop_oneof![
        8 => (s(), any::<u8>(), prop_oneof![6 => same, 2 => other, 2 => odd.boxed()]).prop_map(|(slot, how, spec)| Call::New { slot, how, spec }),
        8 => (s(), key_max(9000), any::<bool>()).prop_map(|(slot, key, text)| Call::Insert { slot, key, text }),
        3 => (s(), letters()).prop_map(|(slot, key)| Call::Insert { slot, key, text: true }),
        2 => (s(), letters()).prop_map(|(slot, key)| Call::Contains { slot, key, text: true }),
        2 => (s(), keyset(25)).prop_map(|(slot, set)| Call::InsertMany { slot, set }),
        1 => (s(), any::<u64>()).prop_map(|(slot, seed)| Call::FillUp { slot, seed }),
        5 => (s(), key_max(9000), any::<bool>()).prop_map(|(slot, key, text)| Call::Contains { slot, key, text }),
        4 => (s(), s()).prop_map(|(slot, src)| Call::Union { slot, src }),
        3 => (s(), s()).prop_map(|(slot, src)| Call::Common { slot, src }),
        2 => s().prop_map(|slot| Call::Dumps { slot }),
        3 => (s(), s(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<u32>(), any::<u8>()), 1..4)], prop::option::weighted(0.2, any::<u16>()), blob())
            .prop_map(|(slot, src, edits, cut, data)| Call::Loads { slot, src, edits, cut, data }),
        1 => (s(), prop::collection::vec(any::<u8>(), 0..100)).prop_map(|(slot, bytes)| Call::Raw { slot, bytes }),
        3 => (s(), name()).prop_map(|(slot, name)| Call::Save { slot, name }),
        3 => (s(), name()).prop_map(|(slot, name)| Call::Load { slot, name }),
        2 => (s(), 0u8..2).prop_map(|(slot, name)| Call::LibSave { slot, name }),
        2 => (s(), any::<u8>(), prop_oneof![3 => 0u16..60_000, 1 => Just(59_999u16), 1 => Just(u16::MAX)]).prop_map(|(slot, name, room)| Call::SaveLimited { slot, name, room }),
        3 => (s(), any::<u8>()).prop_map(|(slot, which)| Call::Wrong { slot, which }),
        1 => (s(), any::<u8>(), "[a-z]{0,12}").prop_map(|(slot, name, text)| Call::Cli { slot, name, text }),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    prop_oneof![2 => spec(9_000.0), 2 => small_spec()]
        .prop_map(|s| s.bounded(30_000.0))
        .prop_flat_map(|spec| {
            let start = (any::<u8>(), any::<u8>());
            (Just(spec.clone()), start, prop::collection::vec(call(spec), 1..25))
        })
        .prop_map(|(spec, (a, b), mut calls)| {
            // two filters to start with
            calls.insert(0, Call::New { slot: 0, how: a | 3, spec: spec.clone() });
            calls.insert(1, Call::New { slot: 1, how: b, spec: spec.clone() });
            Case { spec, calls }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "sequences of up to 26 calls over three filter objects, executed by a Python interpreter with the freshly built extension and by the library: constructors with valid and invalid parameters, insertions and lookups of bytes and str, unions, common counts, dumps, loads of intact and damaged data, save and load on good and bad paths and without room, arguments of wrong types and out of range, the command line tool in between; results, exception classes and, after every call, all getters and the serialized bytes are compared. Non-trivial: more than two calls took effect",
        suites: || vec![suite("calls", 4_000, 60_000, |_| case(), check)],
        processes: true,
    }
}
