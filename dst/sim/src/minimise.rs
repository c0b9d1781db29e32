//! Makes a failing scenario and its choices smaller, as long as the same thing goes wrong.
use crate::run::*;
use serde::{Deserialize, Serialize};
use simproto::*;
use std::time::{Duration, Instant};

/// Everything that is needed to repeat a failure.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    /// the profile and the seed the failure was found with
    pub profile: String,
    pub seed: u64,
    pub scenario: Scenario,
    /// every decision of the scheduler and the network, in order; zeros follow
    pub choices: Vec<u32>,
    pub log_hash: u64,
    pub tries: u64,
    /// what happened
    pub trace: Vec<String>,
}

pub fn same(v: &[Violation], prop: &str, class: &str) -> Option<Violation> {
    v.iter().find(|x| x.class == class && x.props.iter().any(|p| p == prop)).cloned()
}

struct Min<'a> {
    sh: &'a Shared,
    prop: &'a str,
    class: &'a str,
    until: Instant,
    tries: u64,
    sc: Scenario,
    ch: Vec<u32>,
}

impl<'a> Min<'a> {
    fn over(&self) -> bool {
        Instant::now() >= self.until
    }
    fn fails(&mut self, sc: &Scenario, ch: &[u32]) -> Option<Vec<u32>> {
        self.tries += 1;
        let o = self.sh.run(Job::Given(sc, ch), false, 10);
        if same(&violations(&o), self.prop, self.class).is_some() {
            let mut c = self.sh.take_choices();
            trim(&mut c);
            Some(c)
        } else {
            None
        }
    }
    /// Keeps the new scenario if it still fails, with the same choices or without any.
    fn try_sc(&mut self, sc: Scenario) -> bool {
        if self.over() {
            return false;
        }
        let ch = self.ch.clone();
        let hit = match self.fails(&sc, &ch) {
            Some(c) => Some(c),
            None if !ch.is_empty() => self.fails(&sc, &[]),
            None => None,
        };
        if let Some(c) = hit {
            self.sc = sc;
            self.ch = c;
            true
        } else {
            false
        }
    }
    fn edit(&mut self, f: impl FnOnce(&mut Scenario) -> bool) -> bool {
        let mut s = self.sc.clone();
        if !f(&mut s) {
            return false;
        }
        self.try_sc(s)
    }
    fn try_ch(&mut self, ch: Vec<u32>) -> bool {
        if self.over() {
            return false;
        }
        let sc = self.sc.clone();
        if self.fails(&sc, &ch).is_some() {
            self.ch = ch;
            trim(&mut self.ch);
            true
        } else {
            false
        }
    }
}

fn trim(c: &mut Vec<u32>) {
    while c.last() == Some(&0) {
        c.pop();
    }
}

fn drop_req(c: &mut ConnSpec, i: usize) {
    c.reqs.remove(i);
    let m = |x: usize| if x > i { x - 1 } else { x };
    let mut steps = vec![];
    for s in &c.steps {
        match *s {
            Step::Send(a, b) => {
                let (a, b) = (m(a), m(b));
                if a < b {
                    steps.push(Step::Send(a, b));
                }
            }
            Step::SendPart(r, _) | Step::SendRest(r) if r == i => {}
            Step::SendPart(r, n) => steps.push(Step::SendPart(m(r), n)),
            Step::SendRest(r) => steps.push(Step::SendRest(m(r))),
            Step::Wait(n) => steps.push(Step::Wait(m(n))),
            ref s => steps.push(s.clone()),
        }
    }
    c.steps = steps;
}

fn smaller(b: &Blob) -> Option<Blob> {
    match *b {
        Blob::Str(ref s) if s.len() > 4 && s.is_ascii() => Some(Blob::Str(s[..s.len() / 2].to_string())),
        Blob::Gen(s, n) if n > 4 => Some(Blob::Gen(s, n / 2)),
        Blob::GenBin(s, n) if n > 4 => Some(Blob::GenBin(s, n / 2)),
        _ => None,
    }
}

fn blobs(r: &mut Respond) -> Vec<&mut Blob> {
    match *r {
        Respond::Send(ref mut b, _) | Respond::Opt(Some(ref mut b)) => vec![b],
        Respond::Chunked(ref mut p, _) => p
            .iter_mut()
            .flat_map(|p| match *p {
                Piece::Send(ref mut b) | Piece::TrySend(ref mut b) | Piece::Write(ref mut b) | Piece::WriteAll(ref mut b) | Piece::Copy(ref mut b) => vec![b],
                _ => vec![],
            })
            .collect(),
        _ => vec![],
    }
}

/// Makes the failure smaller; `None` if it cannot be repeated at all.
pub fn minimise(sh: &Shared, prop: &str, class: &str, profile: &str, seed: u64, limit: Duration) -> Option<Replay> {
    let sc = crate::gen::scenario(profile, seed);
    let o = sh.run(Job::Gen(profile, seed), false, 60);
    same(&violations(&o), prop, class)?;
    let mut ch = sh.take_choices();
    trim(&mut ch);
    let start = Instant::now();
    let mut m = Min { sh, prop, class, until: start + limit, tries: 0, sc: sc.clone(), ch: ch.clone() };
    if m.fails(&sc, &ch).is_none() {
        return None;
    }
    m.try_ch(vec![]);
    loop {
        let before = (serde_json::to_string(&m.sc).unwrap().len(), m.ch.len(), m.ch.iter().filter(|c| **c != 0).count());
        scenario(&mut m);
        choices(&mut m);
        let after = (serde_json::to_string(&m.sc).unwrap().len(), m.ch.len(), m.ch.iter().filter(|c| **c != 0).count());
        if before == after || m.over() {
            break;
        }
    }
    let o = sh.run(Job::Given(&m.sc, &m.ch), true, 60);
    let v = same(&violations(&o), prop, class)?;
    let (log, hash) = match o {
        Outcome::Done(r) => (r.log.clone(), r.log_hash),
        _ => (vec![], 0),
    };
    Some(Replay {
        property: prop.to_string(),
        class: class.to_string(),
        message: v.msg,
        profile: profile.to_string(),
        seed,
        scenario: m.sc,
        choices: m.ch,
        log_hash: hash,
        tries: m.tries,
        trace: log,
    })
}

fn scenario(m: &mut Min) {
    // connections
    let mut i = 0;
    while i < m.sc.conns.len() && !m.over() {
        if !m.edit(|s| {
            s.conns.remove(i);
            true
        }) {
            i += 1;
        }
    }
    m.edit(|s| {
        let any = !s.probes.is_empty();
        s.probes.clear();
        any
    });
    while m.sc.probes.len() > 1 && m.edit(|s| s.probes.pop().is_some()) {}
    // requests
    for c in 0..m.sc.conns.len() {
        let mut i = m.sc.conns[c].reqs.len();
        while i > 0 {
            i -= 1;
            m.edit(|s| {
                drop_req(&mut s.conns[c], i);
                true
            });
        }
        let mut i = m.sc.conns[c].steps.len();
        while i > 0 {
            i -= 1;
            m.edit(|s| {
                let keep = matches!(s.conns[c].steps[i], Step::SendRest(_));
                s.conns[c].steps.remove(i);
                !keep
            });
        }
    }
    // what is not used at all
    m.edit(|s| {
        let used: Vec<u32> = s.conns.iter().chain(&s.probes).flat_map(|c| c.reqs.iter().map(|r| r.op)).collect();
        for (i, o) in s.ops.iter_mut().enumerate() {
            if !used.contains(&(i as u32)) {
                *o = Op { read: ReadPlan::None, sleep: 0, status: None, headers: vec![], panic: PanicAt::No, respond: Respond::Drop, drop_ctx_first: false, handler_storage: false };
            }
        }
        true
    });
    let mut i = m.sc.rfilters.len();
    while i > 0 {
        i -= 1;
        m.edit(|s| {
            s.rfilters.remove(i);
            true
        });
    }
    let mut i = m.sc.cfilters.len();
    while i > 0 {
        i -= 1;
        m.edit(|s| {
            s.cfilters.remove(i);
            true
        });
    }
    let mut i = m.sc.router.routes.len();
    while i > 0 && m.sc.router.fallbacks.is_empty() {
        i -= 1;
        m.edit(|s| {
            s.router.routes.remove(i);
            true
        });
    }
    // faults
    macro_rules! set {
        ($($p:tt)*) => {
            m.edit(|s| {
                let old = serde_json::to_string(&*s).unwrap();
                s.$($p)*;
                serde_json::to_string(&*s).unwrap() != old
            });
        };
    }
    set!(sched.preempt = 0);
    set!(sched.sys_switch = 0);
    set!(sched.policy = 0);
    set!(clock.jumps = vec![]);
    set!(faults.accept = vec![]);
    set!(faults.spawn = vec![]);
    set!(cfg.https = false);
    set!(cfg.v6 = false);
    set!(cfg.host = 0);
    set!(cfg.start_err = None);
    for c in 0..m.sc.conns.len() {
        set!(conns[c].jitter = 0);
        set!(conns[c].frag = 0);
        set!(conns[c].window = 0);
        set!(conns[c].read_every = 0);
        set!(conns[c].short_io = false);
        set!(conns[c].eintr = false);
        set!(conns[c].peer_err = false);
        set!(conns[c].rst_after_rx = None);
        set!(conns[c].send_err = None);
        set!(conns[c].send_once = false);
        set!(conns[c].dup_err = false);
        set!(conns[c].tls_bad = false);
        set!(conns[c].sockopt_err = false);
        for r in 0..m.sc.conns[c].reqs.len() {
            set!(conns[c].reqs[r].query = None);
            set!(conns[c].reqs[r].fragment = None);
            set!(conns[c].reqs[r].raw = vec![]);
            set!(conns[c].reqs[r].body = Body::None);
            let mut h = m.sc.conns[c].reqs[r].headers.len();
            while h > 0 {
                h -= 1;
                m.edit(|s| {
                    s.conns[c].reqs[r].headers.remove(h);
                    true
                });
            }
        }
    }
    for o in 0..m.sc.ops.len() {
        set!(ops[o].sleep = 0);
        set!(ops[o].status = None);
        set!(ops[o].headers = vec![]);
        set!(ops[o].read = ReadPlan::None);
        set!(ops[o].handler_storage = false);
        set!(ops[o].drop_ctx_first = false);
        if let Respond::Chunked(ref p, _) = m.sc.ops[o].respond {
            let mut i = p.len();
            while i > 0 {
                i -= 1;
                m.edit(|s| {
                    if let Respond::Chunked(ref mut p, _) = s.ops[o].respond {
                        p.remove(i);
                    }
                    true
                });
            }
        }
        let n = blobs(&mut m.sc.ops[o].respond).len();
        for k in 0..n {
            while m.edit(|s| {
                let mut v = blobs(&mut s.ops[o].respond);
                match smaller(v[k]) {
                    Some(b) => {
                        *v[k] = b;
                        true
                    }
                    None => false,
                }
            }) {}
        }
    }
    for f in 0..m.sc.rfilters.len() {
        set!(rfilters[f].tf = Tf::Ident);
        set!(rfilters[f].begin_out = None);
        set!(rfilters[f].end_out = None);
        set!(rfilters[f].header = None);
        set!(rfilters[f].set_status = None);
    }
}

fn choices(m: &mut Min) {
    if m.ch.is_empty() {
        return;
    }
    // cut off the end
    let mut lo = 0;
    let mut hi = m.ch.len();
    while lo < hi && !m.over() {
        let mid = (lo + hi) / 2;
        let c = m.ch[..mid].to_vec();
        if m.try_ch(c) {
            hi = m.ch.len().min(mid);
        } else {
            lo = mid + 1;
        }
    }
    // clear parts
    let mut n = (m.ch.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < m.ch.len() && !m.over() {
            let e = (i + n).min(m.ch.len());
            if m.ch[i..e].iter().any(|c| *c != 0) {
                let mut c = m.ch.clone();
                for x in &mut c[i..e] {
                    *x = 0;
                }
                m.try_ch(c);
            }
            i += n;
        }
        if n == 1 || m.over() {
            break;
        }
        n /= 2;
    }
}
