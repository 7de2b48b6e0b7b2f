//! Case generation, isolated execution, shrinking and reporting.
//!
//! Cases are proptest value trees drawn from a seeded generator. Each batch is executed in a forked
//! child, so that a crash, an abort or corrupted memory is just another observable outcome. A
//! failing case is shrunk with proptest's own simplify/complicate protocol, one fork per candidate.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::{guard, ledger};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn count(&mut self, s: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.labels.get_mut(s) {
            Some(v) => *v += n,
            None => {
                self.labels.insert(s.to_string(), n);
            }
        }
    }
    pub fn label(&mut self, s: &str) {
        self.count(s, 1)
    }
    pub fn get(&self, s: &str) -> u64 {
        self.labels.get(s).copied().unwrap_or(0)
    }
}

pub trait Suite {
    const NAME: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
    /// Cases per forked child.
    const BATCH: usize = 32;
    /// Seconds without progress after which a run is given up as inconclusive.
    const PATIENCE: u64 = 120;
    /// Address-space limit of a child in GiB.
    const MEM_GB: u64 = 6;
    /// Poison filling of fresh and released memory.
    const FILL: bool = true;
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct CaseReport {
    i: usize,
    err: Option<String>,
    nontrivial: bool,
    labels: BTreeMap<String, u64>,
    cpu_ms: u64,
}

#[derive(Debug, Clone)]
enum Outcome {
    Pass(CaseReport),
    Fail(String),
}

#[derive(Debug)]
pub enum Inconclusive {
    Timeout(String),
    Killed(String),
}

static PANIC_TEXT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        guard::window(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = PANIC_TEXT.lock() {
            *g = format!("{msg} at {loc}");
        }
    }));
}

pub fn last_panic() -> String {
    PANIC_TEXT.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Runs one case in this process.
pub fn run_here<S: Suite>(case: &S::Case) -> (Result<(), String>, Ctx) {
    let mut ctx = Ctx::default();
    guard::set_fill(S::FILL);
    guard::reset();
    ledger::reset();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| S::run(case, &mut ctx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    };
    ledger::clear_plan();
    (r, ctx)
}

fn limit_memory(gb: u64) {
    if cfg!(feature = "asan") {
        return;
    }
    unsafe {
        let l = libc::rlimit {
            rlim_cur: gb << 30,
            rlim_max: gb << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

const ENDLESS: &str = "does not terminate";

/// Processor time a child has used, in seconds.
fn cpu_seconds(pid: i32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    // user time only: faulting in memory on a loaded machine is no evidence
    let t: f64 = f.get(11)?.parse().ok()?;
    Some(t / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64)
}

fn user_ms() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        u.ru_utime.tv_sec as u64 * 1000 + u.ru_utime.tv_usec as u64 / 1000
    }
}

/// Runs the cases in a forked child, in order. Returns one outcome per case up to and including the
/// first failure.
fn run_batch<S: Suite>(cases: &[S::Case]) -> Result<Vec<Outcome>, Inconclusive> {
    let mut fds = [0i32; 2];
    let mut out: Vec<Outcome> = Vec::new();
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            // die with the parent
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            limit_memory(S::MEM_GB);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            for (i, c) in cases.iter().enumerate() {
                let from = user_ms();
                let (r, ctx) = run_here::<S>(c);
                let cpu_ms = user_ms() - from;
                let failed = r.is_err();
                let rep = CaseReport {
                    i,
                    err: r.err(),
                    nontrivial: ctx.nontrivial,
                    labels: ctx.labels,
                    cpu_ms,
                };
                let mut s = serde_json::to_string(&rep).unwrap();
                s.push('\n');
                if w.write_all(s.as_bytes()).is_err() {
                    libc::_exit(3);
                }
                if failed {
                    break;
                }
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut buf: Vec<u8> = Vec::new();
        let mut tmp = [0u8; 65536];
        let mut last = Instant::now();
        let mut cpu_then = 0.0;
        let mut endless = None;
        loop {
            let mut p = libc::pollfd {
                fd: fds[0],
                events: libc::POLLIN,
                revents: 0,
            };
            let n = libc::poll(&mut p, 1, 1000);
            if n > 0 {
                match r.read(&mut tmp) {
                    Ok(0) => break,
                    Ok(n) => {
                        buf.extend_from_slice(&tmp[..n]);
                        last = Instant::now();
                        cpu_then = cpu_seconds(pid).unwrap_or(cpu_then);
                    }
                    Err(_) => break,
                }
            } else if cpu_seconds(pid).is_some_and(|t| t - cpu_then > S::PATIENCE as f64 * 0.7) {
                // counted in processor time of the child: a loaded machine does not matter
                libc::kill(pid, libc::SIGKILL);
                endless = Some(format!(
                    "{ENDLESS}: the case is not finished after {} s of processor time",
                    (S::PATIENCE as f64 * 0.7) as u64
                ));
                break;
            } else if last.elapsed() > Duration::from_secs(S::PATIENCE * 2) {
                libc::kill(pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                return Err(Inconclusive::Timeout(format!(
                    "no progress for {} s",
                    S::PATIENCE * 2
                )));
            }
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        for line in buf.split(|b| *b == b'\n') {
            if let Ok(rep) = serde_json::from_slice::<CaseReport>(line) {
                match &rep.err {
                    None => out.push(Outcome::Pass(rep)),
                    Some(e) => out.push(Outcome::Fail(e.clone())),
                }
            }
        }
        let failed = matches!(out.last(), Some(Outcome::Fail(_)));
        if let Some(e) = endless {
            if !failed {
                out.push(Outcome::Fail(e));
            }
        } else if !failed && out.len() < cases.len() {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGKILL {
                    return Err(Inconclusive::Killed("the child was killed".into()));
                }
                out.push(Outcome::Fail(format!(
                    "the process was ended by signal {sig} ({})",
                    match sig {
                        libc::SIGSEGV => "segmentation fault",
                        libc::SIGABRT => "abort",
                        libc::SIGBUS => "bus error",
                        libc::SIGILL => "illegal instruction",
                        libc::SIGFPE => "arithmetic exception",
                        libc::SIGTRAP => "trap",
                        _ => "?",
                    }
                )));
            } else if libc::WEXITSTATUS(st) == guard::OUT_OF_MEMORY_STATUS {
                out.push(Outcome::Pass(CaseReport {
                    i: out.len(),
                    err: None,
                    nontrivial: false,
                    labels: [("process ended for lack of memory".to_string(), 1)].into(),
                    cpu_ms: 0,
                }));
            } else if libc::WEXITSTATUS(st) == guard::SEALED_STATUS {
                out.push(Outcome::Fail(
                    "a shared read wrote to the registry's memory (sealed against writing while it was read)".into(),
                ));
            } else {
                out.push(Outcome::Fail(format!(
                    "the process exited early with status {}",
                    libc::WEXITSTATUS(st)
                )));
            }
        }
    }
    Ok(out)
}

fn fails<S: Suite>(cases: &[S::Case]) -> Result<Option<String>, Inconclusive> {
    Ok(run_batch::<S>(cases)?.into_iter().find_map(|o| match o {
        Outcome::Fail(e) => Some(e),
        _ => None,
    }))
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Replay {
    pub suite: String,
    pub profile: String,
    pub error: String,
    pub cases: Vec<serde_json::Value>,
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct WorkerReport {
    pub suite: String,
    pub profile: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial_hashes: Vec<u64>,
    pub labels: BTreeMap<String, u64>,
    /// number of cases in which a label occurred
    pub cases_with: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Replay>,
    pub inconclusive: Option<String>,
    pub shrink_evals: u64,
    pub slowest_case_ms: u64,
}

pub fn profile_name() -> &'static str {
    if cfg!(feature = "asan") {
        "asan"
    } else if cfg!(debug_assertions) {
        "dbg"
    } else {
        "release"
    }
}

fn hash64(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn runner_for(seed: u64, suite: &str, shard: u64) -> TestRunner {
    let mut bytes = [0u8; 32];
    bytes[0..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&shard.to_le_bytes());
    bytes[16..24].copy_from_slice(&hash64(suite).to_le_bytes());
    bytes[24..32].copy_from_slice(&hash64(profile_name()).to_le_bytes());
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    )
}

/// Draws the cases a worker would run, as JSON values.
pub fn draw<S: Suite>(tier: Tier, seed: u64, shard: u64, n: usize) -> Vec<serde_json::Value> {
    let strat = S::strategy(tier);
    let mut tr = runner_for(seed, S::NAME, shard);
    (0..n)
        .map(|_| serde_json::to_value(strat.new_tree(&mut tr).unwrap().current()).unwrap())
        .collect()
}

pub fn work<S: Suite>(tier: Tier, seed: u64, shard: u64, n: usize, deadline: u64) -> WorkerReport {
    let start = Instant::now();
    let strat = S::strategy(tier);
    let mut tr = runner_for(seed, S::NAME, shard);
    let mut rep = WorkerReport {
        suite: S::NAME.into(),
        profile: profile_name().into(),
        rule: S::RULE.into(),
        ..Default::default()
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut done = 0usize;
    'outer: while done < n {
        if start.elapsed() > Duration::from_secs(deadline) {
            break;
        }
        let k = S::BATCH.min(n - done);
        let mut trees: Vec<_> = (0..k).map(|_| strat.new_tree(&mut tr).unwrap()).collect();
        let cases: Vec<S::Case> = trees.iter().map(|t| t.current()).collect();
        let out = match run_batch::<S>(&cases) {
            Ok(o) => o,
            Err(e) => {
                rep.inconclusive = Some(format!("{e:?}"));
                break;
            }
        };
        for (i, o) in out.into_iter().enumerate() {
            rep.evaluations += 1;
            match o {
                Outcome::Pass(r) => {
                    rep.slowest_case_ms = rep.slowest_case_ms.max(r.cpu_ms);
                    for (l, c) in &r.labels {
                        *rep.labels.entry(l.clone()).or_default() += c;
                        *rep.cases_with.entry(l.clone()).or_default() += 1;
                    }
                    if r.nontrivial {
                        let js = serde_json::to_string(&cases[i]).unwrap();
                        if seen.insert(hash64(&js)) && rep.samples.len() < 3 && js.len() < 4000 {
                            rep.samples.push(serde_json::to_value(&cases[i]).unwrap());
                        }
                    }
                }
                Outcome::Fail(e) => {
                    let tree = trees.swap_remove(i);
                    rep.failure = Some(shrink::<S>(tree, &cases[..=i], e, &mut rep.shrink_evals));
                    break 'outer;
                }
            }
        }
        // (a case may have ended the process)
        done += k;
    }
    rep.nontrivial_hashes = seen.into_iter().collect();
    rep.nontrivial_hashes.sort_unstable();
    rep
}

fn replay_of<S: Suite>(cases: &[S::Case], error: String) -> Replay {
    Replay {
        suite: S::NAME.into(),
        profile: profile_name().into(),
        error,
        cases: cases
            .iter()
            .map(|c| serde_json::to_value(c).unwrap())
            .collect(),
    }
}

fn shrink<S: Suite>(
    mut tree: Box<dyn ValueTree<Value = S::Case>>,
    upto: &[S::Case],
    err: String,
    evals: &mut u64,
) -> Replay {
    let start = Instant::now();
    let budget = Duration::from_secs(100);
    if err.starts_with(ENDLESS) {
        // every candidate would take as long
        return replay_of::<S>(&upto[upto.len() - 1..], err);
    }
    // Does it fail on its own?
    let alone = fails::<S>(&[tree.current()]);
    let mut best_err = match alone {
        Ok(Some(e)) => e,
        _ => {
            // Only after its predecessors: shorten the run-up.
            let last = upto.last().unwrap().clone();
            let mut list: Vec<S::Case> = upto.to_vec();
            let mut e = err;
            let mut i = 0;
            while i + 1 < list.len() && start.elapsed() < budget {
                let mut cand = list.clone();
                cand.remove(i);
                *evals += 1;
                if let Ok(Some(e2)) = fails::<S>(&cand) {
                    list = cand;
                    e = e2;
                } else {
                    i += 1;
                }
            }
            let _ = last;
            return replay_of::<S>(&list, e);
        }
    };
    let mut best = tree.current();
    let mut n = 0;
    if tree.simplify() {
        loop {
            if n >= 2500 || start.elapsed() > budget {
                break;
            }
            n += 1;
            let cur = tree.current();
            match fails::<S>(&[cur.clone()]) {
                Ok(Some(e)) => {
                    best = cur;
                    best_err = e;
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    *evals += n;
    replay_of::<S>(&[best], best_err)
}

/// Re-runs the cases of a replay file. Returns the error if they still fail.
pub fn replay<S: Suite>(r: &Replay) -> Result<Option<String>, String> {
    let cases: Vec<S::Case> = r
        .cases
        .iter()
        .map(|v| serde_json::from_value(v.clone()).map_err(|e| e.to_string()))
        .collect::<Result<_, _>>()?;
    fails::<S>(&cases).map_err(|e| format!("{e:?}"))
}

/// Runs cases in this very process, announcing each on stderr (for Miri and AddressSanitizer, where
/// the tool itself ends the process).
pub fn run_direct<S: Suite>(cases: &[serde_json::Value], seconds: u64) -> Result<WorkerReport, String> {
    let t0 = std::time::Instant::now();
    let mut rep = WorkerReport {
        suite: S::NAME.into(),
        profile: profile_name().into(),
        rule: S::RULE.into(),
        ..Default::default()
    };
    for (i, v) in cases.iter().enumerate() {
        if t0.elapsed().as_secs() >= seconds {
            break;
        }
        let c: S::Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        eprintln!("@case {i}");
        let (r, ctx) = run_here::<S>(&c);
        rep.evaluations += 1;
        match r {
            Ok(()) => {
                for (l, n) in ctx.labels {
                    *rep.cases_with.entry(l.clone()).or_default() += 1;
                    *rep.labels.entry(l).or_default() += n;
                }
                if ctx.nontrivial {
                    rep.nontrivial_hashes.push(hash64(&v.to_string()));
                }
                if cfg!(miri) {
                    // what is done so far counts even if this process is stopped
                    println!("{}", serde_json::to_string(&rep).unwrap());
                }
            }
            Err(e) => {
                rep.failure = Some(replay_of::<S>(&[c], e));
                break;
            }
        }
    }
    Ok(rep)
}
