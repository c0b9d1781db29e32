//! Running scenarios in child processes, and what comes back from them.
use crate::core::{self, Choices, Rng};
use crate::{gen, oracle};
use serde::{Deserialize, Serialize};
use simproto::Scenario;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub props: Vec<String>,
    /// what is wrong, without the details of this run
    pub class: String,
    pub msg: String,
    pub conn: Option<usize>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    /// how often something was checked, for each property
    pub checks: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub error: Option<String>,
    pub trace: u64,
    pub log_hash: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub syscalls: u64,
    pub edges: u64,
    pub choices: u64,
    pub log: Vec<String>,
    pub sample: String,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Done(Box<RunResult>),
    Signal(i32),
    Timeout,
}

pub enum Job<'a> {
    Gen(&'a str, u64),
    Given(&'a Scenario, &'a [u32]),
}

const CHOICES: usize = 1 << 21;
const RESULT: usize = 1 << 23;

/// Memory shared between a worker and its children.
pub struct Shared {
    base: *mut u8,
    pub coverage: *mut u8,
}

unsafe fn shared_mem(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}

impl Shared {
    pub fn new() -> Shared {
        unsafe { Shared { base: shared_mem(4096 + CHOICES * 4 + RESULT), coverage: shared_mem(core::COVERAGE_CAP) } }
    }
    /// The same coverage map with memory of its own.
    pub fn for_worker(&self) -> Shared {
        unsafe { Shared { base: shared_mem(4096 + CHOICES * 4 + RESULT), coverage: self.coverage } }
    }
    pub fn edges(&self) -> usize {
        unsafe { std::slice::from_raw_parts(self.coverage, core::COVERAGE_CAP).iter().filter(|b| **b != 0).count() }
    }
    /// The address (in the executable) of the guard of each edge, and if it was reached.
    pub fn dump_edges(&self) -> String {
        let hit = unsafe { std::slice::from_raw_parts(self.coverage, core::COVERAGE_CAP) };
        let base = std::fs::read_to_string("/proc/self/maps").ok().and_then(|m| usize::from_str_radix(m.split('-').next()?, 16).ok()).unwrap_or(0);
        let mut out = String::new();
        let mut n = 0;
        for (a, b) in unsafe { (*(&raw const core::GUARDS)).clone() } {
            for p in (a..b).step_by(4) {
                n += 1;
                out.push_str(&format!("{:x} {}\n", p - base, hit[n & (core::COVERAGE_CAP - 1)]));
            }
        }
        out
    }
    fn len(&self) -> *mut u32 {
        self.base as *mut u32
    }
    fn result_len(&self) -> *mut u32 {
        unsafe { (self.base as *mut u32).add(1) }
    }
    fn choices(&self) -> *mut u32 {
        unsafe { self.base.add(4096) as *mut u32 }
    }
    fn result(&self) -> *mut u8 {
        unsafe { self.base.add(4096 + CHOICES * 4) }
    }
    /// The choices of the last run.
    pub fn take_choices(&self) -> Vec<u32> {
        unsafe {
            let n = (*self.len() as usize).min(CHOICES);
            std::slice::from_raw_parts(self.choices(), n).to_vec()
        }
    }

    pub fn run(&self, job: Job, want_log: bool, limit: u64) -> Outcome {
        unsafe {
            *self.len() = 0;
            *self.result_len() = 0;
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                // one heap is enough for threads that take turns
                libc::mallopt(libc::M_ARENA_MAX, 1);
                let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &nocore);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| child(self, job, want_log)));
                let r = match r {
                    Ok(r) => r,
                    Err(p) => {
                        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        RunResult { error: Some(format!("the harness panicked: {}", m)), ..Default::default() }
                    }
                };
                let mut s = serde_json::to_vec(&r).unwrap();
                if s.len() > RESULT {
                    let r = RunResult { log: vec!["(the log is too long)".into()], ..r };
                    s = serde_json::to_vec(&r).unwrap();
                    s.truncate(RESULT);
                }
                std::ptr::copy_nonoverlapping(s.as_ptr(), self.result(), s.len());
                *self.result_len() = s.len() as u32;
                libc::_exit(0);
            }
            // wait, with a limit
            let start = std::time::Instant::now();
            let mut st = 0;
            let mut naps = 0u32;
            loop {
                let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
                if r == pid {
                    break;
                }
                naps += 1;
                let us = if naps < 200 { 100 } else { 2000 };
                let ts = libc::timespec { tv_sec: 0, tv_nsec: us * 1000 };
                libc::nanosleep(&ts, std::ptr::null_mut());
                if start.elapsed().as_secs() >= limit {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    return Outcome::Timeout;
                }
            }
            if libc::WIFSIGNALED(st) {
                return Outcome::Signal(libc::WTERMSIG(st));
            }
            if libc::WEXITSTATUS(st) != 0 || *self.result_len() == 0 {
                return Outcome::Signal(1000 + libc::WEXITSTATUS(st));
            }
            let b = std::slice::from_raw_parts(self.result(), *self.result_len() as usize);
            match serde_json::from_slice::<RunResult>(b) {
                Ok(r) => Outcome::Done(Box::new(r)),
                Err(e) => Outcome::Done(Box::new(RunResult { error: Some(format!("result: {}", e)), ..Default::default() })),
            }
        }
    }
}

fn child(sh: &Shared, job: Job, want_log: bool) -> RunResult {
    let (sc, replay) = match job {
        Job::Gen(p, seed) => (gen::scenario(p, seed), None),
        Job::Given(s, c) => (s.clone(), Some(c.to_vec())),
    };
    let sc: &'static Scenario = Box::leak(Box::new(sc));
    unsafe {
        core::COVERAGE = sh.coverage;
    }
    let ch = Choices { buf: sh.choices(), cap: CHOICES, len: sh.len(), replay, rng: Rng::new(sc.seed ^ 0x5EED) };
    let s = core::run(sc, ch);
    let mut r = oracle::check(s);
    r.error = s.error.clone();
    r.trace = s.trace;
    r.faults = s.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    r.sim_ns = s.now;
    r.switches = s.switches;
    r.preemptions = s.preemptions;
    r.syscalls = s.syscalls;
    r.edges = s.edges;
    r.choices = unsafe { *sh.len() as u64 };
    // a hash over everything that happened
    let mut h = 0xcbf29ce484222325u64;
    let mut add = |b: &[u8]| {
        for x in b {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    };
    for e in &s.log {
        add(core::describe(e).as_bytes());
    }
    for c in &s.conns {
        add(&c.tx);
    }
    r.log_hash = h;
    if want_log || !r.violations.is_empty() {
        let n = s.log.len();
        r.log = s.log.iter().skip(n.saturating_sub(3000)).map(core::describe).collect();
    }
    r
}

/// What a finished, or unfinished, run amounts to.
pub fn violations(o: &Outcome) -> Vec<Violation> {
    match *o {
        Outcome::Done(ref r) => r.violations.clone(),
        Outcome::Signal(n) => vec![Violation {
            props: oracle::ALL.iter().map(|s| s.to_string()).collect(),
            class: format!("process death {}", n),
            msg: format!("the server process died (signal {})", n),
            conn: None,
        }],
        Outcome::Timeout => vec![Violation {
            props: oracle::ALL.iter().map(|s| s.to_string()).collect(),
            class: "hang".into(),
            msg: "the server hangs in an uninstrumented loop".into(),
            conn: None,
        }],
    }
}
