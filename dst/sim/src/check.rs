//! `dst check <property> <tier>`: the check of one property.
use crate::minimise::{self, Replay};
use crate::pool;
use crate::run::*;
use serde::Deserialize;
use simproto::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// A defect that is known and not repaired.
#[derive(Deserialize)]
struct Known {
    id: String,
    property: String,
    what: String,
    scenario: String,
    /// the violation that stands for it
    class: String,
    contains: String,
    /// the beginnings of others that come with it
    #[serde(default)]
    also: Vec<String>,
}

#[derive(Deserialize)]
struct KnownFile {
    findings: Vec<Known>,
}

fn root() -> PathBuf {
    // /verif: the directory above dst
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()))
}

fn dedup_hit(v: &[Violation], prop: &str) -> Option<Violation> {
    v.iter().find(|x| x.props.iter().any(|p| p == prop)).cloned()
}

pub fn write_replay(r: &Replay) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}-{}.json", r.property, r.profile, r.seed));
    std::fs::write(&f, serde_json::to_string_pretty(r).unwrap()).expect("cannot write the replay file");
    f
}

fn plain_replay(prop: &str, v: &Violation, profile: &str, seed: u64, choices: Vec<u32>) -> Replay {
    Replay {
        property: prop.to_string(),
        class: v.class.clone(),
        message: v.msg.clone(),
        profile: profile.to_string(),
        seed,
        scenario: crate::gen::scenario(profile, seed),
        choices,
        log_hash: 0,
        tries: 0,
        trace: vec![],
    }
}

pub fn report(r: &Replay, f: &Path) {
    println!("property {}: {} ({})", r.property, r.message, r.class);
    println!("found with profile {} and seed {}; made smaller in {} runs", r.profile, r.seed, r.tries);
    for l in r.trace.iter().take(60) {
        let s: String = l.chars().take(300).collect();
        println!("  {}", s);
    }
    println!("VIOLATION property={} replay={}", r.property, f.display());
}

/// Replays a file; true if the same thing happens again.
pub fn replay(file: &str) -> Result<bool, String> {
    let t = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let r: Replay = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let sh = Shared::new();
    let o = sh.run(Job::Given(&r.scenario, &r.choices), true, 120);
    if let Outcome::Done(ref d) = o {
        for l in &d.log {
            println!("{}", l);
        }
        if let Some(ref e) = d.error {
            return Err(e.clone());
        }
    }
    match minimise::same(&violations(&o), &r.property, &r.class) {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            if let Outcome::Done(ref d) = o {
                println!("the history is {}", if d.log_hash == r.log_hash { "identical" } else { "different" });
            }
            println!("VIOLATION property={} replay={}", r.property, file);
            Ok(true)
        }
        None => {
            println!("not reproduced");
            Ok(false)
        }
    }
}

fn known(sh: &Shared, prop: &str) -> (Vec<String>, Option<(Violation, Scenario)>, u64) {
    let mut lines = vec![];
    let f = root().join("known-findings.json");
    let k: KnownFile = match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("{}: {}", f.display(), e);
            std::process::exit(2);
        }
    };
    let mut n = 0;
    for k in k.findings.iter().filter(|k| k.property == prop) {
        let t = std::fs::read_to_string(root().join(&k.scenario)).unwrap_or_default();
        let sc: Scenario = match serde_json::from_str(&t) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{}: {}", k.scenario, e);
                std::process::exit(2);
            }
        };
        let o = sh.run(Job::Given(&sc, &[]), false, 60);
        n += 1;
        let mut seen = false;
        for v in violations(&o) {
            if v.class == k.class && v.msg.contains(&k.contains) {
                seen = true;
            } else if k.also.iter().any(|a| v.msg.starts_with(a.as_str())) {
                // the same thing
            } else if v.props.iter().any(|p| p == prop) {
                return (lines, Some((v, sc)), n);
            }
        }
        if seen {
            lines.push(format!("KNOWN-FINDING: property={} {}: {}", prop, k.id, k.what));
        }
    }
    (lines, None, n)
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let budget: u64 = std::env::var("DST_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 22 });
    if !crate::gen::PROFILES.contains(&prop) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    println!("property {} tier {} VERIF_SEED {}", prop, tier, seed);
    let sh = Shared::new();
    // a run has to be repeatable
    let mut det = 0;
    for i in 0..3 {
        let a = sh.run(Job::Gen(prop, seed.wrapping_mul(77_003) + i), false, 60);
        let b = sh.run(Job::Gen(prop, seed.wrapping_mul(77_003) + i), false, 60);
        if let (Outcome::Done(a), Outcome::Done(b)) = (a, b) {
            if a.log_hash != b.log_hash && a.error.is_none() && b.error.is_none() {
                eprintln!("the simulation is not deterministic (seed {})", seed.wrapping_mul(77_003) + i);
                return 3;
            }
            det += 1;
        }
    }
    let (lines, new, directed) = known(&sh, prop);
    for l in &lines {
        println!("{}", l);
    }
    let mut found: Option<(Violation, String, u64)> = None;
    if let Some((v, sc)) = new {
        let mut r = plain_replay(prop, &v, "directed", sc.seed, vec![]);
        r.scenario = sc;
        let f = write_replay(&r);
        report(&r, &f);
        evidence(prop, tier, seed, &Stats::default(), &sh, start, 1, det, directed, 0.0);
        return 1;
    }
    let mut st = Stats::default();
    let base = seed.wrapping_mul(1_000_003);
    let round = std::cell::Cell::new(0u64);
    let job = |n: u64| Some((if n % 4 == 3 { "base".to_string() } else { prop.to_string() }, base.wrapping_add(n + (round.get() << 24))));
    let searching = Instant::now();
    let deadline = searching + Duration::from_secs(budget);
    let mut doubtful: Vec<(String, u64, Violation)> = vec![];
    let p = pool::Pool { workers: pool::cpus(), shared: &sh, deadline, job: &job };
    let mut once = 0;
    loop {
        p.go(&mut |l| {
            st.add(&l, prop);
            if let Some(v) = dedup_hit(&l.violations, prop) {
                if v.class == "hang" {
                    // could be a slow machine
                    doubtful.push((l.profile.clone(), l.seed, v));
                    return doubtful.len() < 3;
                }
                found = Some((v, l.profile.clone(), l.seed));
                return false;
            }
            true
        });
        // one seed is one execution: what doesn't come again has not been the code under test
        match found {
            Some((ref v, ref profile, s)) if once < 3 && dedup_hit(&violations(&sh.run(Job::Gen(profile, s), false, 60)), prop).is_none() => {
                eprintln!("the violation {} (profile {} seed {}) is not repeatable", v.class, profile, s);
                once += 1;
                st.errors += 1;
            }
            _ => break,
        }
        found = None;
        round.set(round.get() + 1);
    }
    let searched = searching.elapsed().as_secs_f64();
    if found.is_none() {
        for (profile, s, v) in &doubtful {
            let o = sh.run(Job::Gen(profile, *s), false, 90);
            if let Outcome::Timeout = o {
                let r = plain_replay(prop, v, profile, *s, sh.take_choices());
                let f = write_replay(&r);
                report(&r, &f);
                evidence(prop, tier, seed, &st, &sh, start, 1, det, directed, searched);
                return 1;
            }
            if let Some(v) = dedup_hit(&violations(&o), prop) {
                found = Some((v, profile.clone(), *s));
                break;
            }
        }
    }
    if let Some((v, profile, s)) = found {
        println!("{} {}: {}", profile, s, v.msg);
        let limit = Duration::from_secs(if thorough { 120 } else { 25 });
        let r = match minimise::minimise(&sh, prop, &v.class, &profile, s, limit) {
            Some(r) => r,
            None => {
                eprintln!("the violation {} (profile {} seed {}) is not repeatable", v.class, profile, s);
                let r = plain_replay(prop, &v, &profile, s, vec![]);
                let f = write_replay(&r);
                eprintln!("see {}", f.display());
                return 3;
            }
        };
        let f = write_replay(&r);
        report(&r, &f);
        evidence(prop, tier, seed, &st, &sh, start, 1, det, directed, searched);
        return 1;
    }
    if st.runs == 0 || st.errors * 20 > st.runs {
        eprintln!("{} of {} runs failed in the harness: {:?}", st.errors, st.runs, st.error);
        return 2;
    }
    if st.checks.get(prop).cloned().unwrap_or(0) == 0 {
        eprintln!("nothing was checked");
        return 2;
    }
    println!(
        "{} runs ({} distinct and relevant), {} checks of {}, {:.0} simulated s, {} edges of instrumented code, {} harness errors",
        st.runs,
        st.distinct.len(),
        st.checks[prop],
        prop,
        st.sim_us as f64 / 1e6,
        sh.edges(),
        st.errors
    );
    evidence(prop, tier, seed, &st, &sh, start, 0, det, directed, searched);
    0
}

#[derive(Default)]
struct Stats {
    runs: u64,
    errors: u64,
    error: Option<String>,
    other: u64,
    distinct: HashSet<u64>,
    all: HashSet<u64>,
    checks: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    sim_us: u64,
    switches: u64,
    preemptions: u64,
    syscalls: u64,
    samples: Vec<String>,
}

impl Stats {
    fn add(&mut self, l: &pool::Line, prop: &str) {
        self.runs += 1;
        if let Some(ref e) = l.error {
            self.errors += 1;
            self.error = Some(format!("{} {}: {}", l.profile, l.seed, e));
        }
        if !l.violations.is_empty() && dedup_hit(&l.violations, prop).is_none() {
            self.other += 1;
        }
        self.all.insert(l.trace);
        if l.checks.get(prop).map_or(false, |n| *n > 0) {
            self.distinct.insert(l.trace);
            if self.samples.len() < 3 && !l.sample.is_empty() {
                self.samples.push(l.sample.clone());
            }
        }
        for (m, t) in [(&mut self.checks, &l.checks), (&mut self.counts, &l.counts), (&mut self.faults, &l.faults)] {
            for (k, v) in t {
                *m.entry(k.clone()).or_insert(0) += v;
            }
        }
        for k in l.faults.keys() {
            *self.fault_runs.entry(k.clone()).or_insert(0) += 1;
        }
        self.sim_us += l.sim_ns / 1000;
        self.switches += l.switches;
        self.preemptions += l.preemptions;
        self.syscalls += l.syscalls;
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, st: &Stats, sh: &Shared, start: Instant, violations: u64, det: u64, directed: u64, searched: f64) {
    let rate = if searched > 0.0 { st.runs as f64 / searched * 3600.0 } else { 0.0 };
    let v = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.distinct.len(),
            "rule": format!("Each run is one complete life of a server under the simulator: a configuration, router, filters, handlers, scripted clients, network behaviour, clock and faults drawn from one seed (three of four runs from the profile of {0}, the rest from a general one), and every scheduling, delivery and fault decision drawn from the same seed. A run is non-trivial when at least one check of {0} was evaluated in it; two runs are distinct when the sequence of scheduling decisions, system calls and their results (hashed) differs.", prop),
            "samples": st.samples,
            "runs": st.runs,
            "seeds": st.runs,
            "runs_per_hour": rate as u64,
            "seeds_per_hour": rate as u64,
            "first_seed": seed.wrapping_mul(1_000_003),
            "simulated_seconds": st.sim_us as f64 / 1e6,
            "distinct_interleavings": st.all.len(),
            "interleaving_measure": "hash of (thread, system call, result) and of every switch to another thread, in order",
            "thread_switches": st.switches,
            "preemptions_inside_code": st.preemptions,
            "simulated_system_calls": st.syscalls,
            "instrumented_edges_reached": sh.edges(),
            "faults_injected": st.faults,
            "runs_with_fault": st.fault_runs,
            "property_checks": st.checks.get(prop).cloned().unwrap_or(0),
            "checks_of_all_properties": st.checks,
            "probes_of_rare_conditions": st.counts,
            "runs_with_violations_of_other_properties": st.other,
            "harness_errors": st.errors,
            "runs_repeated_to_check_determinism": det,
            "directed_runs_for_known_findings": directed,
            "components": {
                "real": ["rustful (from /repo, with coverage callbacks as preemption points)", "hyper 0.10 server, buffering and HTTP/1.x parsing", "multipart, url, anymap, num_cpus and the other dependencies", "std threads, mutexes, condition variables, channels, panics", "the handlers, filters and routers of the simulated application"],
                "stub": ["scheduler: one thread at a time, futexes simulated", "sockets: in-memory network with latency, fragmentation, windows, resets and errors", "clocks and sleeping: simulated", "files below a simulated root: in memory with errors, short reads and changing sizes", "getrandom: seeded", "sched_getaffinity/sysconf: number of processors from the scenario", "TLS: a stand-in that frames records without encryption"]
            }
        },
        "assumptions": [
            "system calls behave like the simulated ones: sequentially consistent memory and the documented results of Linux",
            "threads are switched at system calls, futex operations and at coverage points in rustful and the application, not at every instruction",
            "the expected responses come from an independent model of the documented behaviour in /verif/dst/sim/src/model.rs"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}.json", prop));
    if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap() + "\n") {
        eprintln!("{}: {}", f.display(), e);
        std::process::exit(2);
    }
}

/// The same seeds twice, with different numbers of workers: the histories have to be identical.
pub fn selftest(n: u64, first: u64) -> i32 {
    let sh = Shared::new();
    let job = |i: u64| {
        if i < n {
            Some((crate::gen::PROFILES[i as usize % crate::gen::PROFILES.len()].to_string(), first + i))
        } else {
            None
        }
    };
    let mut maps: Vec<BTreeMap<(String, u64), (u64, u64)>> = vec![];
    for workers in [pool::cpus(), 3, 2 * pool::cpus() + 1] {
        let mut m = BTreeMap::new();
        let p = pool::Pool { workers, shared: &sh, deadline: Instant::now() + Duration::from_secs(3000), job: &job };
        p.go(&mut |l| {
            m.insert((l.profile.clone(), l.seed), (l.log_hash, l.trace));
            true
        });
        println!("{} workers: {} runs", workers, m.len());
        maps.push(m);
    }
    let mut bad = 0;
    for (k, v) in &maps[0] {
        for m in &maps[1..] {
            if m.get(k) != Some(v) {
                bad += 1;
                if bad <= 10 {
                    println!("different: {:?} {:?} {:?}", k, v, m.get(k));
                }
            }
        }
    }
    println!("{} runs, {} differences", maps[0].len(), bad);
    (bad > 0) as i32
}
