//! Running the command line tool in scratch directories.

use crate::engine::internal;
use crate::gens::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::Duration;

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A directory of its own for one case, removed afterwards.
pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("poppy-verif-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        if let Err(e) = std::fs::create_dir_all(&p) {
            internal(format!("cannot create {}: {e}", p.display()));
        }
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn write(&self, name: &str, content: &[u8]) -> PathBuf {
        let p = self.file(name);
        if let Err(e) = std::fs::write(&p, content) {
            internal(format!("cannot write {}: {e}", p.display()));
        }
        p
    }
    pub fn read(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.file(name)).ok()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn err(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr).trim().replace('\n', " | ");
        format!("exit {:?} signal {:?}: {}", self.code, self.signal, s.chars().take(300).collect::<String>())
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
}

pub struct Poppy<'a> {
    pub dir: &'a Path,
    pub args: Vec<OsString>,
    pub stdin: Vec<u8>,
    /// limit on the size of written files
    pub fsize: Option<u64>,
}

impl<'a> Poppy<'a> {
    pub fn new(dir: &'a Path, args: &[&str]) -> Self {
        Poppy { dir, args: args.iter().map(OsString::from).collect(), stdin: vec![], fsize: None }
    }
    pub fn arg(mut self, a: impl Into<OsString>) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn stdin(mut self, b: Vec<u8>) -> Self {
        self.stdin = b;
        self
    }
    pub fn fsize(mut self, n: Option<u64>) -> Self {
        self.fsize = n;
        self
    }

    /// Err only when the tool does not end
    pub fn run(self) -> Result<Out, String> {
        let bin = std::env::var_os("POPPY_BIN").unwrap_or_else(|| internal("POPPY_BIN is not set"));
        let mut c = Command::new(bin);
        c.args(&self.args).current_dir(self.dir);
        c.env("RUST_BACKTRACE", "0");
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let fsize = self.fsize;
        unsafe {
            c.pre_exec(move || {
                if let Some(n) = fsize {
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                // a size taken from a wrong place must not exhaust the machine
                let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &l);
                // no core files
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let mut child = c.spawn().unwrap_or_else(|e| internal(format!("cannot start the command line tool: {e}")));
        let pid = child.id() as i32;
        let mut stdin = child.stdin.take().unwrap();
        let input = self.stdin;
        let feeder = std::thread::spawn(move || {
            let _ = stdin.write_all(&input);
        });
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(child.wait_with_output());
        });
        let out = match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(r) => r.unwrap_or_else(|e| internal(format!("cannot wait for the command line tool: {e}"))),
            Err(_) => {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                return Err(format!("poppy {:?} did not end within 60 s", self.args));
            }
        };
        let _ = feeder.join();
        Ok(Out { code: out.status.code(), signal: out.status.signal(), stdout: out.stdout, stderr: out.stderr })
    }
}

// ---------------------------------------------------------------- text files

/// one or many entries
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Line(String),
    Long { style: Style, len: usize, seed: u64 },
    Many(KeySet),
}

/// a file with an entry per line
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Text {
    pub parts: Vec<Part>,
    pub crlf: bool,
    /// the last line is terminated
    pub end: bool,
}

impl Text {
    pub fn lines(&self) -> Vec<String> {
        let s = |b: Vec<u8>| String::from_utf8(b).expect("generated text");
        let mut v = vec![];
        for p in &self.parts {
            match p {
                Part::Line(l) => v.push(l.clone()),
                Part::Long { style, len, seed } => v.push(s(gen_bytes(*style, *len, *seed))),
                Part::Many(k) => v.extend(k.iter().map(s)),
            }
        }
        v
    }

    pub fn bytes(&self) -> Vec<u8> {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut t = self.lines().join(nl);
        if self.end && !self.parts.is_empty() {
            t.push_str(nl);
        }
        t.into_bytes()
    }

    pub fn entries(&self) -> Vec<String> {
        entries(&self.bytes())
    }
}

/// what a reader of lines sees
pub fn entries(b: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = b.split(|&c| c == b'\n').collect();
    if v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    let n = v.len();
    let unterminated = b.last() != Some(&b'\n');
    v.into_iter()
        .enumerate()
        .map(|(i, l)| {
            let l = if l.last() == Some(&b'\r') && !(unterminated && i + 1 == n) { &l[..l.len() - 1] } else { l };
            String::from_utf8_lossy(l).into_owned()
        })
        .collect()
}

fn many(max: usize) -> BoxedStrategy<KeySet> {
    (prop_oneof![3 => Just(Style::Ascii), 1 => Just(Style::Utf8), 1 => Just(Style::Near)], prop_oneof![3 => 5usize..40, 1 => 0usize..6], prop_oneof![1 => Just(0usize), 1 => 1usize..40], 0u64..6, 0..=max)
        .prop_map(|(style, len, spread, seed, n)| KeySet { style, len, spread, seed, n })
        .boxed()
}

pub fn text(max_parts: usize, max_many: usize) -> BoxedStrategy<Text> {
    let part = prop_oneof![
        4 => "[a-c]{0,3}".prop_map(Part::Line),
        4 => "[a-z0-9.-]{1,16}".prop_map(Part::Line),
        2 => ".{0,20}".prop_map(|s: String| Part::Line(s.replace('\n', " ").trim_end_matches('\r').to_string())),
        1 => "[ \t]{0,2}[a-z]{0,3}[ \t]{0,2}".prop_map(Part::Line),
        // characters that some readers of text treat in their own way
        1 => prop::collection::vec(prop::sample::select("\u{feff}\u{85}\u{2028}\u{a0}\r\r\0\u{b}\u{c}\u{1a}\u{1b}#;,:\"'\\%$-ab ".chars().collect::<Vec<_>>()), 1..6).prop_map(|v| Part::Line(v.into_iter().collect())),
        1 => (prop_oneof![Just(Style::Ascii), Just(Style::Utf8), Just(Style::Near)], prop_oneof![12 => 30usize..300, 12 => 8180usize..8200, 12 => 300usize..20_000, 2 => 65_530usize..65_545, 2 => 20_000usize..300_000, 1 => 300_000usize..3_000_000], 0u64..4).prop_map(|(style, len, seed)| Part::Long { style, len, seed }),
        2 => many(max_many).prop_map(Part::Many),
    ];
    (prop::collection::vec(part, 0..=max_parts), prop::bool::weighted(0.2), prop::bool::weighted(0.7)).prop_map(|(parts, crlf, end)| Text { parts, crlf, end }).boxed()
}

/// number of jobs as an argument; above 100 with messages
pub fn jobs() -> BoxedStrategy<Option<u8>> {
    prop_oneof![1 => (102u8..=109).prop_map(Some), 1 => Just(None), 1 => Just(Some(0u8)), 2 => Just(Some(1u8)), 6 => (2u8..=9).prop_map(Some), 1 => (10u8..=70).prop_map(Some)].boxed()
}

pub fn jobs_args(j: Option<u8>) -> Vec<String> {
    match j {
        Some(j) if j > 100 => vec!["-v".to_string(), "-j".to_string(), (j - 100).to_string()],
        Some(j) => vec!["-j".to_string(), j.to_string()],
        None => vec![],
    }
}

/// Everything in a directory: names, kinds and contents.
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    let mut m = std::collections::BTreeMap::new();
    let Ok(rd) = std::fs::read_dir(dir) else { internal(format!("cannot list {}", dir.display())) };
    for e in rd.flatten() {
        let p = e.path();
        let c = if p.is_dir() { None } else { Some(std::fs::read(&p).unwrap_or_else(|e| internal(e))) };
        m.insert(e.file_name().to_string_lossy().into_owned(), c);
    }
    m
}
