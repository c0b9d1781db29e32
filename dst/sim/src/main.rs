#![allow(invalid_runtime_symbol_definitions)]

mod check;
mod core;
mod gen;
mod http;
mod minimise;
mod model;
mod oracle;
mod pool;
mod run;
mod sys;

use run::*;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn num(s: Option<&String>, d: u64) -> u64 {
    s.and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| &s[..]) {
        Some("run") => {
            let sh = Shared::new();
            let given: Option<simproto::Scenario> = if a[2] == "given" {
                Some(serde_json::from_str(&std::fs::read_to_string(&a[3]).expect("scenario")).expect("scenario"))
            } else {
                None
            };
            let o = match given {
                Some(ref sc) => sh.run(Job::Given(sc, &[]), true, 60),
                None => sh.run(Job::Gen(&a[2], a[3].parse().unwrap()), true, 60),
            };
            if let Outcome::Done(ref r) = o {
                for l in &r.log {
                    println!("{}", l);
                }
                println!("{:?}", RunResult { log: vec![], ..(**r).clone() });
            } else {
                println!("{:?}", o);
            }
        }
        Some("scenario") => println!("{}", serde_json::to_string_pretty(&gen::scenario(&a[2], a[3].parse().unwrap())).unwrap()),
        // soak <seconds> [first seed] [profile]
        Some("soak") => soak(num(a.get(2), 10), num(a.get(3), 0), a.get(4).map(|s| &s[..])),
        Some("check") if a.len() > 2 => std::process::exit(check::check(&a[2], a.get(3).map_or("quick", |s| &s[..]))),
        Some("replay") if a.len() > 2 => match check::replay(&a[2]) {
            Ok(again) => std::process::exit(again as i32),
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(2);
            }
        },
        // selftest <runs> [first seed]
        Some("selftest") => std::process::exit(check::selftest(num(a.get(2), 2000), num(a.get(3), 1))),
        _ => {
            eprintln!("usage: dst run|scenario <profile> <seed> | soak <seconds> [first seed] [profile] | check <property> <tier> | replay <file> | selftest <runs>");
            std::process::exit(2);
        }
    }
}

fn soak(secs: u64, first: u64, only: Option<&str>) {
    let sh = Shared::new();
    let start = Instant::now();
    let profiles: Vec<String> = match only {
        Some(p) => p.split(',').map(|s| s.to_string()).collect(),
        None => gen::PROFILES.iter().map(|s| s.to_string()).collect(),
    };
    let job = |n: u64| Some((profiles[n as usize % profiles.len()].clone(), first + n / profiles.len() as u64));
    let p = pool::Pool { workers: pool::cpus(), shared: &sh, deadline: start + Duration::from_secs(secs), job: &job };
    let mut runs = 0u64;
    let mut classes: BTreeMap<String, (u64, Vec<String>)> = BTreeMap::new();
    let mut errors: Vec<String> = vec![];
    let mut checks: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut sim = 0u64;
    p.go(&mut |l| {
        runs += 1;
        sim += l.sim_ns / 1000;
        if let Some(ref e) = l.error {
            errors.push(format!("{} {}: {}", l.profile, l.seed, e));
        }
        for (m, t) in [(&mut checks, &l.checks), (&mut counts, &l.counts), (&mut faults, &l.faults)] {
            for (k, v) in t {
                *m.entry(k.clone()).or_insert(0) += v;
            }
        }
        for v in l.violations.iter().take(1) {
            let e = classes.entry(v.class.clone()).or_insert((0, vec![]));
            e.0 += 1;
            if e.1.len() < 4 {
                e.1.push(format!("{} {} [{}]: {}", l.profile, l.seed, v.props.join(","), v.msg.chars().take(300).collect::<String>()));
            }
        }
        true
    });
    let mut v: Vec<_> = classes.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse((x.1).0));
    for (c, (n, ex)) in v {
        println!("== {} {} times", c, n);
        for e in ex {
            println!("     {}", e);
        }
    }
    errors.sort();
    for e in errors.iter().take(10) {
        println!("ERROR {}", e);
    }
    if let Ok(p) = std::env::var("DST_EDGES") {
        std::fs::write(p, sh.dump_edges()).expect("edges");
    }
    println!("{} runs, {} harness errors, {:.1} s, {:.0} simulated s, {} edges", runs, errors.len(), start.elapsed().as_secs_f64(), sim as f64 / 1e6, sh.edges());
    println!("checks {:?}\ncounts {:?}\nfaults {:?}", checks, counts, faults);
}
