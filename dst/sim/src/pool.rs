//! Many runs on all cores: worker processes that take every n-th seed.
use crate::run::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

/// What a worker reports about a run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub seed: u64,
    pub profile: String,
    pub violations: Vec<Violation>,
    pub checks: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub error: Option<String>,
    pub trace: u64,
    pub log_hash: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub syscalls: u64,
    pub sample: String,
}

pub fn line(seed: u64, profile: &str, o: &Outcome) -> Line {
    let mut l = Line {
        seed,
        profile: profile.to_string(),
        violations: violations(o),
        checks: BTreeMap::new(),
        counts: BTreeMap::new(),
        faults: BTreeMap::new(),
        error: None,
        trace: 0,
        log_hash: 0,
        sim_ns: 0,
        switches: 0,
        preemptions: 0,
        syscalls: 0,
        sample: String::new(),
    };
    if let Outcome::Done(ref r) = *o {
        l.checks = r.checks.clone();
        l.counts = r.counts.clone();
        l.faults = r.faults.clone();
        l.error = r.error.clone();
        l.trace = r.trace;
        l.log_hash = r.log_hash;
        l.sim_ns = r.sim_ns;
        l.switches = r.switches;
        l.preemptions = r.preemptions;
        l.syscalls = r.syscalls;
        l.sample = r.sample.clone();
    }
    l
}

pub const RUN_LIMIT: u64 = 20;

pub struct Pool<'a> {
    pub workers: usize,
    pub shared: &'a Shared,
    pub deadline: Instant,
    /// profile and seed of the nth run, if there is one
    pub job: &'a dyn Fn(u64) -> Option<(String, u64)>,
}

fn pin(w: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &have)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[w % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            unsafe { libc::_exit(3) }
        }
        b = &b[n as usize..];
    }
}

impl<'a> Pool<'a> {
    /// Runs everything; `each` gets every result and returns false to stop.
    pub fn go(&self, each: &mut dyn FnMut(Line) -> bool) {
        let mut fds: Vec<i32> = vec![];
        let mut pids: Vec<i32> = vec![];
        for w in 0..self.workers {
            unsafe {
                let mut p = [0i32; 2];
                assert!(libc::pipe(p.as_mut_ptr()) == 0);
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(p[0]);
                    for f in &fds {
                        libc::close(*f);
                    }
                    pin(w);
                    let sh = self.shared.for_worker();
                    let mut n = w as u64;
                    while Instant::now() < self.deadline {
                        let (profile, seed) = match (self.job)(n) {
                            Some(j) => j,
                            None => break,
                        };
                        let o = sh.run(Job::Gen(&profile, seed), false, RUN_LIMIT);
                        let mut l = line(seed, &profile, &o);
                        if n > 64 {
                            l.sample.clear();
                        }
                        let mut s = serde_json::to_vec(&l).unwrap();
                        s.push(b'\n');
                        write_all(p[1], &s);
                        n += self.workers as u64;
                    }
                    libc::_exit(0);
                }
                libc::close(p[1]);
                fds.push(p[0]);
                pids.push(pid);
            }
        }
        let mut bufs: Vec<Vec<u8>> = vec![vec![]; fds.len()];
        let mut open = fds.len();
        let mut go = true;
        let mut tmp = vec![0u8; 1 << 16];
        while open > 0 && go {
            let mut pf: Vec<libc::pollfd> = fds.iter().map(|&fd| libc::pollfd { fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, 1000) };
            for w in 0..pf.len() {
                if pf[w].fd < 0 || pf[w].revents == 0 {
                    continue;
                }
                let n = unsafe { libc::read(fds[w], tmp.as_mut_ptr() as *mut _, tmp.len()) };
                if n <= 0 {
                    unsafe { libc::close(fds[w]) };
                    fds[w] = -1;
                    open -= 1;
                    continue;
                }
                bufs[w].extend_from_slice(&tmp[..n as usize]);
                let mut start = 0;
                while let Some(e) = bufs[w][start..].iter().position(|b| *b == b'\n') {
                    let l: Result<Line, _> = serde_json::from_slice(&bufs[w][start..start + e]);
                    start += e + 1;
                    if let Ok(l) = l {
                        if go {
                            go = each(l);
                        }
                    }
                }
                bufs[w].drain(..start);
            }
            // a worker that runs into its limit is waited for
            if Instant::now() > self.deadline + Duration::from_secs(RUN_LIMIT + 10) {
                break;
            }
        }
        for (w, p) in pids.iter().enumerate() {
            unsafe {
                if fds[w] >= 0 {
                    libc::close(fds[w]);
                }
                libc::kill(*p, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(*p, &mut st, 0);
            }
        }
    }
}

pub fn cpus() -> usize {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return 4;
        }
        (0..1024).filter(|&c| libc::CPU_ISSET(c, &have)).count().max(1)
    }
}
