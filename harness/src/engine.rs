//! Runs suites of generated cases (proptest), shrinks failures, counts what was generated.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

/// What a case tells about itself while it is checked.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known: Vec<String>,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_default() += 1;
    }
    pub fn count(&mut self, s: impl Into<String>, n: u64) {
        *self.labels.entry(s.into()).or_default() += n;
    }
}

pub type Verdict = Result<(), String>;

#[derive(Clone, Debug)]
pub struct RunCfg {
    pub prop: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub tier: Tier,
    pub fork: bool,
    /// multiplies the number of cases
    pub scale: f64,
    pub only: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct SuiteOut {
    pub suite: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known: Vec<String>,
    pub failure: Option<Failure>,
    pub error: Option<String>,
    pub wall_s: f64,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Failure {
    pub prop: String,
    pub suite: String,
    pub message: String,
    pub case: serde_json::Value,
}

type RunFn = Box<dyn Fn(&RunCfg) -> SuiteOut>;
type ReplayFn = Box<dyn Fn(&serde_json::Value) -> Verdict>;

pub struct Suite {
    pub name: &'static str,
    pub run: RunFn,
    pub replay: ReplayFn,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("panic: {info}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs f, turning a panic into Err.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        format!("{what}: {m}")
    })
}

/// The check itself cannot work: not a verdict about the code under test.
pub fn internal(msg: impl std::fmt::Display) -> ! {
    eprintln!("internal error: {msg}");
    unsafe { libc::_exit(INTERNAL) }
}

pub const INTERNAL: i32 = 70;
pub const HANG: i32 = 77;

/// a case that takes longer than this (seconds) is taken for endless
pub static CASE_LIMIT: AtomicU64 = AtomicU64::new(150);
static CASE_START: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}

/// Ends the process with HANG when a case does not end; the supervisor then runs every case in a
/// process of its own to find out which.
fn watchdog() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let s = CASE_START.load(Ordering::Relaxed);
            if s != 0 && now().saturating_sub(s) > CASE_LIMIT.load(Ordering::Relaxed) {
                eprintln!("a case did not end");
                unsafe { libc::_exit(HANG) }
            }
        });
    });
}

fn fnv(b: &[u8]) -> u64 {
    b.iter()
        .fold(0xcbf29ce484222325u64, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Evaluates the check in a forked process: aborts become failures.
fn forked<C>(case: &C, check: &dyn Fn(&C, &mut Ctx) -> Verdict) -> Verdict {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            let mut ctx = Ctx::default();
            let r = no_panic("case", || check(case, &mut ctx)).and_then(|x| x);
            if let Err(m) = &r {
                libc::write(fds[1], m.as_ptr() as *const libc::c_void, m.len().min(4000));
            }
            libc::_exit(if r.is_ok() { 0 } else { 1 });
        }
        libc::close(fds[1]);
        let mut msg = Vec::new();
        let mut buf = [0u8; 4096];
        let limit = CASE_LIMIT.load(Ordering::Relaxed);
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, limit as i32 * 1000) == 0 {
                libc::kill(pid, libc::SIGKILL);
                libc::close(fds[0]);
                libc::waitpid(pid, std::ptr::null_mut(), 0);
                return Err(format!("did not end within {limit} s"));
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
            if n <= 0 {
                break;
            }
            msg.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGKILL {
                return Ok(()); // not something the code under test does by itself
            }
            return Err(format!("process ended by signal {s} (abort or crash)"));
        }
        if libc::WEXITSTATUS(st) == INTERNAL {
            internal("in a forked case");
        }
        if libc::WEXITSTATUS(st) == 0 {
            Ok(())
        } else {
            Err(String::from_utf8_lossy(&msg).into_owned())
        }
    }
}

/// A suite: `quick`/`thorough` cases over all shards together, a generator and a check.
pub fn suite<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: impl Fn(Tier) -> BoxedStrategy<C> + 'static,
    check: impl Fn(&C, &mut Ctx) -> Verdict + Clone + 'static,
) -> Suite
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    build(name, quick, thorough, true, strategy, check)
}

/// A suite whose number of cases does not grow with the scale of the run: few, expensive cases.
pub fn suite_fixed<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: impl Fn(Tier) -> BoxedStrategy<C> + 'static,
    check: impl Fn(&C, &mut Ctx) -> Verdict + Clone + 'static,
) -> Suite
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    build(name, quick, thorough, false, strategy, check)
}

fn build<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    scaled: bool,
    strategy: impl Fn(Tier) -> BoxedStrategy<C> + 'static,
    check: impl Fn(&C, &mut Ctx) -> Verdict + Clone + 'static,
) -> Suite
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    let check2 = check.clone();
    Suite {
        name,
        run: Box::new(move |cfg| {
            let scale = if scaled { cfg.scale } else { 1.0 };
            run_suite(name, quick, thorough, scale, &strategy, &check, cfg)
        }),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay: {e}"))?;
            let mut ctx = Ctx::default();
            no_panic("case", || check2(&case, &mut ctx)).and_then(|x| x)
        }),
    }
}

fn run_suite<C>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    scale: f64,
    strategy: &dyn Fn(Tier) -> BoxedStrategy<C>,
    check: &dyn Fn(&C, &mut Ctx) -> Verdict,
    cfg: &RunCfg,
) -> SuiteOut
where
    C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
    let start = std::time::Instant::now();
    let total = match cfg.tier {
        Tier::Quick => quick,
        Tier::Thorough => thorough,
    };
    let total = ((total as f64) * scale).ceil() as u64;
    let mut cases = total / cfg.shards;
    if cfg.shard < total % cfg.shards {
        cases += 1;
    }
    let mut out = SuiteOut { suite: name.into(), ..Default::default() };
    if cases == 0 {
        return out;
    }
    let mut seed = [0u8; 32];
    for (i, c) in seed.chunks_mut(8).enumerate() {
        let s = mix(mix(cfg.seed ^ fnv(name.as_bytes()) ^ fnv(cfg.prop.as_bytes()).rotate_left(17)) ^ mix(cfg.shard * 4 + i as u64 + 1));
        c.copy_from_slice(&s.to_le_bytes());
    }
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 40_000,
        max_global_rejects: 1_000_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let state = RefCell::new((out, HashSet::new(), false, String::new()));
    let strat = strategy(cfg.tier);
    if !cfg.fork {
        watchdog();
    }
    let res = runner.run(&strat, |case| {
        let mut ctx = Ctx::default();
        let r = if cfg.fork {
            forked(&case, check)
        } else {
            CASE_START.store(now(), Ordering::Relaxed);
            no_panic("case", || check(&case, &mut ctx)).and_then(|x| x)
        };
        CASE_START.store(0, Ordering::Relaxed);
        let mut st = state.borrow_mut();
        let st = &mut *st;
        if !st.2 {
            st.0.evaluations += 1;
            for (k, v) in ctx.labels {
                *st.0.labels.entry(k).or_default() += v;
            }
            for k in ctx.known {
                if !st.0.known.contains(&k) {
                    st.0.known.push(k);
                }
            }
            if ctx.nontrivial {
                st.0.nontrivial += 1;
                let js = serde_json::to_vec(&case).unwrap();
                if st.1.insert(fnv(&js)) && st.0.samples.len() < 3 && js.len() < 3000 {
                    st.0.samples.push(serde_json::from_slice(&js).unwrap());
                }
            }
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                st.2 = true;
                st.3 = m.clone();
                Err(TestCaseError::fail(m))
            }
        }
    });
    let (o, hashes, _, _) = state.into_inner();
    out = o;
    out.hashes = hashes.into_iter().collect();
    match res {
        Ok(()) => {}
        Err(TestError::Fail(reason, case)) => {
            // the message of the minimal case
            let m = {
                let mut ctx = Ctx::default();
                let r = if cfg.fork {
                    forked(&case, check)
                } else {
                    no_panic("case", || check(&case, &mut ctx)).and_then(|x| x)
                };
                match r {
                    Err(m) => m,
                    Ok(()) => format!("(not reproduced on re-run) {}", reason.message()),
                }
            };
            out.failure = Some(Failure {
                prop: cfg.prop.clone(),
                suite: name.into(),
                message: m,
                case: serde_json::to_value(&case).unwrap(),
            });
        }
        Err(TestError::Abort(r)) => out.error = Some(format!("generator aborted: {r}")),
    }
    out.wall_s = start.elapsed().as_secs_f64();
    out
}
