//! Checks over the recorded history of a run.
use crate::core::{peer_text, Conn, Entry, Mark, Sim, St, Sys, What};
use crate::http::{self, Framing, Parse, Resp};
use crate::model::{self, Exp, Kind, Observed, Outcome, Plan, RfCall};
use crate::run::{RunResult, Violation};
use simproto::*;
use std::collections::{BTreeMap, BTreeSet};

const FOREVER: u64 = u64::MAX;

struct Out {
    v: Vec<Violation>,
    checks: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
}

impl Out {
    fn bad(&mut self, props: &[&str], class: &str, conn: Option<usize>, msg: String) {
        if self.v.len() < 40 {
            let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
            p.sort();
            p.dedup();
            self.v.push(Violation { props: p, class: class.to_string(), msg, conn });
        }
    }
    fn did(&mut self, p: &str) {
        *self.checks.entry(p.to_string()).or_insert(0) += 1;
    }
    fn count(&mut self, p: &str) {
        *self.counts.entry(p.to_string()).or_insert(0) += 1;
    }
}

/// The application events of one request.
#[derive(Default)]
struct Group<'a> {
    first: Option<&'a Entry>,
    cf: Vec<&'a Entry>,
    start: Option<(&'a Entry, &'a HStart)>,
    end: Option<&'a Entry>,
    rf: Vec<&'a Entry>,
    body: Vec<&'a Entry>,
    api: Vec<&'a Entry>,
    panicked: bool,
    began: bool,
    replaced: bool,
    tid: usize,
}

impl<'a> Group<'a> {
    fn token(&self) -> Option<String> {
        if let Some((_, h)) = self.start {
            return h.token.clone();
        }
        for e in self.cf.iter().chain(&self.rf) {
            match e.what {
                What::App(Ev::CF { ref token, .. }) | What::App(Ev::RF { ref token, .. }) if token.is_some() => return token.clone(),
                _ => {}
            }
        }
        None
    }
    fn kind(&self) -> &'static str {
        if self.start.is_some() {
            "a handler call"
        } else if !self.cf.is_empty() {
            "context filter calls"
        } else {
            "response filter calls"
        }
    }
}

fn groups<'a>(entries: &[&'a Entry], has_cf: bool) -> Vec<Group<'a>> {
    let mut v: Vec<Group<'a>> = vec![];
    for &e in entries {
        let ev = match e.what {
            What::App(ref ev) => ev,
            What::Sys(Sys::Panic { .. }) => {
                if let Some(g) = v.last_mut() {
                    g.panicked = true;
                }
                continue;
            }
            _ => continue,
        };
        let new = match *ev {
            Ev::CF { idx, .. } => idx == 0,
            Ev::HStart(_) => !has_cf || v.is_empty(),
            Ev::RF { idx: 0, call: "begin", .. } => match v.last() {
                None => true,
                Some(g) => g.began || g.end.is_some() || g.panicked,
            },
            _ => v.is_empty(),
        };
        if new {
            v.push(Group { first: Some(e), tid: e.tid, ..Default::default() });
        }
        let g = v.last_mut().unwrap();
        match *ev {
            Ev::CF { .. } => g.cf.push(e),
            Ev::HStart(ref h) => g.start = Some((e, h)),
            Ev::HEnd => g.end = Some(e),
            Ev::RF { call, .. } => {
                if call == "begin" {
                    g.began = true;
                }
                g.rf.push(e);
            }
            Ev::Read { .. } | Ev::QueryBody(_) | Ev::MpNone | Ev::MpAsk(_) | Ev::MpField { .. } | Ev::MpEnd { .. } | Ev::Note(_) => g.body.push(e),
            Ev::Api { .. } => g.api.push(e),
            Ev::Opened(new) => g.replaced = new,
            Ev::Panic(_) => g.panicked = true,
        }
    }
    v
}

/// First point at which the cumulative count has reached `x`.
fn reached(m: &[Mark], x: u64) -> Option<Mark> {
    let i = m.partition_point(|k| k.cum < x);
    m.get(i).copied()
}

fn text(b: &[u8]) -> String {
    format!("{:?}", http::show(b))
}

fn params(p: &model::Params) -> Vec<(Vec<u8>, Vec<u8>)> {
    p.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn norm(s: &str) -> String {
    s.to_ascii_lowercase().replace(' ', "")
}

fn rf_calls(g: &Group) -> Vec<RfCall> {
    g.rf.iter()
        .filter_map(|e| match e.what {
            What::App(Ev::RF { idx, call, status, n, writes, .. }) => Some(RfCall { idx, call, status, n, writes }),
            _ => None,
        })
        .collect()
}

/// IMF-fixdate to unix time
pub fn http_date(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 29 || !s.ends_with(" GMT") || b[3] != b',' || b[4] != b' ' || b[7] != b' ' || b[11] != b' ' || b[16] != b' ' || b[19] != b':' || b[22] != b':' {
        return None;
    }
    let num = |r: std::ops::Range<usize>| if s[r.clone()].bytes().all(|c| c.is_ascii_digit()) { s[r].parse::<i64>().ok() } else { None };
    let mon = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|m| *m == &s[8..11])? as i64 + 1;
    let (d, y, h, mi, se) = (num(5..7)?, num(12..16)?, num(17..19)?, num(20..22)?, num(23..25)?);
    // days from civil
    let yy = if mon <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (mon + if mon > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    if &s[..3] != wd || h > 23 || mi > 59 || se > 60 || d < 1 || d > 31 {
        return None;
    }
    Some(days * 86400 + h * 3600 + mi * 60 + se)
}

/// Everything known about a connection before its requests are looked at.
struct Info<'a> {
    c: usize,
    k: &'a Conn,
    spec: &'a ConnSpec,
    entries: Vec<&'a Entry>,
    hello: u64,
    /// no faults
    clean: bool,
    closed_seq: u64,
    /// certainly counted as in use from .. to
    used: Option<(u64, u64)>,
    /// possibly counted as in use from .. to
    maybe_used: Option<(u64, u64)>,
    responses: Vec<Resp>,
    tail: Option<String>,
    partial_head: bool,
    holder: Option<St>,
}

pub fn check(s: &Sim) -> RunResult {
    let mut o = Out { v: vec![], checks: BTreeMap::new(), counts: BTreeMap::new() };
    run_checks(s, &mut o);
    let mut r = RunResult::default();
    r.sample = sample(s);
    r.violations = o.v;
    r.checks = o.checks;
    r.counts = o.counts;
    r
}

fn sample(s: &Sim) -> String {
    let mut t = format!(
        "profile {} seed {}: {:?} router, {} routes, {} context and {} response filters, {} threads, keep-alive {:?}, https {}; ",
        s.sc.profile,
        s.sc.seed,
        s.sc.router.kind,
        s.sc.router.routes.len(),
        s.sc.cfilters.len(),
        s.sc.rfilters.len(),
        s.sc.cfg.pool(),
        s.sc.cfg.keep_alive,
        s.sc.cfg.https
    );
    for (i, c) in s.specs[..s.probe_first].iter().enumerate() {
        let rq: Vec<String> = c.reqs.iter().map(|r| if r.bad.is_some() { "(malformed)".into() } else { format!("{} {}", r.method, r.target_string()) }).collect();
        t.push_str(&format!("conn {}: {} / {}; ", i, rq.join(", "), c.steps.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(" ")));
    }
    t.push_str(&format!("faults {:?}; {} thread switches, {} preemptions, {:.3} simulated s", s.faults, s.switches, s.preemptions, s.now as f64 / 1e9));
    let mut n = t.len().min(1800);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    t.truncate(n);
    t
}

/// Every property: for what ends the whole server.
pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

/// The server starts as configured, or says why not. True if it is running.
fn start(s: &Sim, o: &mut Out) -> bool {
    o.did("C22");
    let bad = |o: &mut Out, what: String| o.bad(&["C22", "C14"], "start", None, what);
    if let Some((_, e)) = s.sc.cfg.start_err {
        let want = format!("Io({:?})", std::io::Error::from_raw_os_error(e));
        match s.start_result {
            Some(Err(ref e)) if *e == want => {}
            ref r => bad(o, format!("the operating system refused to start listening ({}), but the result is {:?}", want, r)),
        }
        let left = s.thrs.iter().filter(|t| t.st != St::Done).count();
        if left > 0 || s.thrs.len() > 1 {
            bad(o, format!("{} threads were started and {} are left after a failed start", s.thrs.len() - 1, left));
        }
        return false;
    }
    match s.start_result {
        Some(Ok(ref a)) => {
            let mut want = s.sc.cfg.address();
            if s.bound != [want] {
                bad(o, format!("the server listens on {:?} instead of {}", s.bound, want));
            }
            if want.port() == 0 {
                want.set_port(crate::core::ANY_PORT);
            }
            if *a != want.to_string() {
                bad(o, format!("the address of the server is said to be {} instead of {}", a, want));
            }
            // the one that starts new ones, and the ones that serve
            let n = s.thrs.iter().filter(|t| t.st != St::Done).count();
            if n != s.sc.cfg.pool() + 1 {
                bad(o, format!("the server has {} threads at the end (with the one that starts the others) instead of {}", n, s.sc.cfg.pool() + 1));
            }
            true
        }
        Some(Err(ref e)) => {
            o.bad(ALL, "start", None, format!("the server does not start: {}", e));
            false
        }
        None => {
            bad(o, "starting the server never ends".into());
            false
        }
    }
}

fn run_checks(s: &Sim, o: &mut Out) {
    if s.error.is_some() {
        return;
    }
    // a server that is gone keeps none of its promises
    if s.aborted {
        o.bad(ALL, "abort", None, "the server process aborts".into());
    }
    if let Some(ref l) = s.livelock {
        o.bad(ALL, "livelock", None, format!("no progress: {}", l));
    }
    if s.aborted || s.livelock.is_some() {
        return;
    }
    if !start(s, o) {
        return;
    }
    let hello = if s.sc.cfg.https { 4 } else { 0 };
    let n = s.specs.len();
    let mut per: Vec<Vec<&Entry>> = (0..n).map(|_| vec![]).collect();
    for e in &s.log {
        if let Some(c) = e.conn {
            per[c].push(e);
        }
    }
    let mut infos: Vec<Info> = vec![];
    for c in 0..n {
        infos.push(info(s, c, &per[c], hello));
    }
    panics(s, o, &infos);
    // every token reaches a handler once
    let mut seen: BTreeMap<&str, u32> = BTreeMap::new();
    for e in &s.log {
        if let What::App(Ev::HStart(ref h)) = e.what {
            o.did("C03");
            match h.token {
                Some(ref t) if t == "SMUGGLED" => {
                    o.bad(&["C06", "C01", "C03", "C18"], "smuggled request", e.conn, "a part of a request body was handled as a request".into())
                }
                Some(ref t) => *seen.entry(t).or_insert(0) += 1,
                None => o.bad(&["C06", "C01", "C03", "C18"], "unknown request", e.conn, format!("a handler was called for a request that was never sent: {} {:?}", h.method, h.path.as_ref().map(|p| http::show(p)))),
            }
        }
    }
    for (t, k) in seen {
        if k > 1 {
            o.bad(&["C03", "C06"], "handled twice", None, format!("the request {} was handled {} times", t, k));
        }
    }
    for i in &infos {
        if s.conns[i.c].started {
            conn(s, o, &infos, i);
        }
    }
    liveness(s, o, &infos);
}

fn info<'a>(s: &'a Sim, c: usize, entries: &[&'a Entry], hello: u64) -> Info<'a> {
    let k = &s.conns[c];
    let closed_seq = k.shut.map_or(FOREVER, |m| m.seq).min(k.closed.map_or(FOREVER, |m| m.seq));
    let mut used = None;
    let mut maybe = None;
    if let Some((aseq, _, tid)) = k.accepted {
        // the connection belongs to the thread until the next accept or the exit
        let mut end = FOREVER;
        let mut normal = false;
        let mut last = 0;
        for e in entries {
            match e.what {
                What::Sys(Sys::Close) => {
                    normal = true;
                    end = e.seq;
                }
                What::Sys(Sys::Recv(_)) | What::Sys(Sys::RecvErr(_)) | What::Sys(Sys::Send(_)) | What::App(_) => {
                    if !normal {
                        last = last.max(e.seq)
                    }
                }
                _ => {}
            }
        }
        // (the directed scenarios don't allow for it)
        let peer_err = s.sc.profile != "directed" && entries.iter().any(|e| matches!(e.what, What::Sys(Sys::PeerErr)));
        let odd = peer_err || entries.iter().any(|e| matches!(e.what, What::Sys(Sys::Panic { .. }) | What::Sys(Sys::DupErr) | What::Sys(Sys::SockoptErr)));
        if odd {
            end = FOREVER;
            for e in &s.log {
                if e.tid != tid || e.seq <= aseq {
                    continue;
                }
                let over = match e.what {
                    What::Sys(Sys::Exit) => true,
                    // known: the thread counts as used until its next connection has started
                    What::Sys(Sys::Accept) | What::Sys(Sys::AcceptErr(_)) => !peer_err,
                    What::Sys(Sys::Send(_)) | What::App(_) => peer_err && e.conn != Some(c),
                    _ => false,
                };
                if over {
                    end = e.seq;
                    break;
                }
            }
        }
        maybe = Some((aseq, end));
        if !peer_err {
            if let Some(m) = reached(&k.consume_marks, hello + 1) {
                if k.closed.is_none() {
                    used = Some((m.seq, FOREVER));
                } else if last >= m.seq {
                    used = Some((m.seq, last));
                }
            }
        }
    }
    let mut responses = vec![];
    let mut tail = None;
    let mut partial_head = false;
    let mut p = 0;
    loop {
        match http::parse(&k.tx, p, k.closed.is_some() || k.shut.is_some()) {
            Parse::Empty => break,
            Parse::Partial => {
                partial_head = true;
                break;
            }
            Parse::Bad(m) => {
                tail = Some(m);
                break;
            }
            Parse::Resp(r) => {
                p = r.end;
                let stop = !r.complete;
                responses.push(*r);
                if stop {
                    break;
                }
            }
        }
    }
    let spec = &s.specs[c];
    let clean = k.faults == 0 && k.tx_err.is_none() && k.rst_at.is_none() && !k.client_reset && !(spec.tls_bad && s.sc.cfg.https);
    let holder = s.thrs.iter().find(|t| t.st == St::Read(c) || t.st == St::Write(c)).map(|t| t.st);
    Info { c, k, spec, entries: entries.to_vec(), hello, clean, closed_seq, used, maybe_used: maybe, responses, tail, partial_head, holder }
}

fn panics(s: &Sim, o: &mut Out, infos: &[Info]) {
    for e in &s.log {
        // (the standard library and the number of processors need some, before any connection)
        if let (&What::Sys(Sys::Escape(ref p)), true) = (&e.what, e.conn.is_some()) {
            o.bad(&["C21", "C15"], "escape", e.conn, format!("the server opened {:?}, which is outside the served directory", p));
        }
        if let What::Sys(Sys::Panic { ref msg, ref loc }) = e.what {
            if msg.starts_with("scripted panic") {
                o.count("scripted_panics");
                continue;
            }
            if msg.starts_with("failed to spawn thread") && !s.sc.faults.spawn.is_empty() {
                // what it leads to is what counts
                o.count("refused_threads");
                continue;
            }
            if let Some(c) = e.conn {
                let bad = infos[c].spec.reqs.iter().any(|r| r.bad.is_some());
                let dup = infos[c].entries.iter().any(|d| d.seq < e.seq && matches!(d.what, What::Sys(Sys::DupErr)));
                if (bad || dup) && loc.contains("hyper") {
                    // the http library gives up on the thread; contained by the server
                    o.count("library_panics");
                    continue;
                }
            }
            let mut p = vec!["C01", "C11", "C14", "C18"];
            p.extend(context(s, infos, e.conn));
            // how the routes were put together is not supposed to make a difference
            if loc.contains("src/handler/") && s.sc.router.routes.iter().any(|r| r.via != BuildVia::Path) {
                p.push("C20");
            }
            o.bad(&p, &format!("panic: {}", msg.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")), e.conn, format!("unexpected panic at {}: {}", loc, msg));
        }
    }
}

/// The properties that the operations of a connection are about.
fn context(s: &Sim, infos: &[Info], conn: Option<usize>) -> Vec<&'static str> {
    let mut p = vec![];
    if let Some(c) = conn {
        for r in &infos[c].spec.reqs {
            if r.bad.is_some() {
                continue;
            }
            let plan = model::plan(s.sc, r);
            p.extend(tags(s, r, &plan));
        }
    }
    p
}

fn tags(s: &Sim, r: &Req, plan: &Plan) -> Vec<&'static str> {
    let mut p = vec!["C01"];
    let op = s.sc.ops.get(r.op as usize);
    match plan.outcome {
        Outcome::Handler { status, ref links, .. } => {
            p.push("C02");
            if status != 200 {
                p.push("C19");
            }
            if !links.is_empty() {
                p.push("C20");
            }
            if let Some(op) = op {
                match op.respond {
                    Respond::Chunked(..) => p.extend(["C07", "C08", "C16"]),
                    Respond::File(..) => p.push("C15"),
                    Respond::Served(..) => p.extend(["C15", "C21"]),
                    Respond::Raw(..) => p.extend(["C08", "C16"]),
                    _ => p.extend(["C08", "C16"]),
                }
                if op.panic != PanicAt::No {
                    p.push("C11");
                }
                if let Respond::Chunked(_, Fin::Panic) = op.respond {
                    p.push("C11");
                }
            }
        }
        Outcome::CfPanic => p.push("C11"),
        Outcome::CfAbort(_) => p.extend(["C19", "C09"]),
        _ => p.push("C19"),
    }
    let acts = s.sc.rfilters.iter().any(|f| f.begin_act.iter().any(|a| a.0 == r.op) || f.end_act.iter().any(|a| a.0 == r.op) || f.write_act.iter().any(|a| a.0 == r.op));
    let pan = s.sc.rfilters.iter().any(|f| {
        f.begin_act.iter().any(|a| a.0 == r.op && a.1 == Act::Panic) || f.end_act.iter().any(|a| a.0 == r.op && a.1 == Act::Panic) || f.write_act.iter().any(|a| a.0 == r.op && a.2 == Act::Panic)
    });
    if acts {
        p.push("C10");
    }
    if pan {
        p.push("C11");
    }
    if !s.sc.rfilters.is_empty() {
        p.push("C08");
    }
    p.sort();
    p.dedup();
    p
}

fn with(a: &[&'static str], b: &[&'static str]) -> Vec<&'static str> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}

fn conn(s: &Sim, o: &mut Out, infos: &[Info], i: &Info) {
    let (c, k) = (i.c, i.k);
    let sc = s.sc;
    if let Some(ref t) = i.tail {
        let mut p = vec!["C01", "C06"];
        p.extend(context(s, infos, Some(c)));
        o.bad(&p, "malformed response", Some(c), format!("the client received something that is not a response: {}", t));
    }
    let gs = groups(&i.entries, !sc.cfilters.is_empty());
    let mut gi = 0;
    let mut ri = 0;
    // sequence number, time and stream position at the end of the previous response
    let mut prev: Option<Mark> = None;
    // why nothing more may be handled
    let mut over: Option<&'static str> = None;
    let mut must_end = false;
    let mut served = 0usize;
    let mut last_complete_open = false;
    let mut lost = false;
    for x in &k.sent {
        let r = &i.spec.reqs[x.req];
        if over.is_some() {
            break;
        }
        if r.bad.is_some() {
            bad_request(s, o, i, x, ri);
            // at most one error response
            if let Some(re) = i.responses.get(ri) {
                if re.status >= 400 && re.status < 500 {
                    ri += 1;
                }
            }
            over = Some("a malformed request");
            last_complete_open = false;
            break;
        }
        if x.sent_to < x.head_end {
            // never complete
            break;
        }
        let plan = model::plan(sc, r);
        let tg = tags(s, r, &plan);
        let handled = matches!(plan.outcome, Outcome::Handler { .. });
        let expects_events = !plan.view.authority && (!sc.cfilters.is_empty() || handled) || !sc.rfilters.is_empty() && !matches!(plan.outcome, Outcome::CfPanic);
        // interim responses
        let interim = |ri: &mut usize| {
            if let Some(re) = i.responses.get(*ri) {
                if re.status == 100 && r.headers.iter().any(|h| h.0 == "Expect") {
                    *ri += 1;
                }
            }
        };
        interim(&mut ri);
        let g = if expects_events { gs.get(gi) } else { None };
        let re = i.responses.get(ri);
        let present = if expects_events { g.is_some() } else { re.is_some() };
        if !present && !expects_events && !i.clean {
            // it may have been processed without a trace
            lost = true;
            continue;
        }
        if !present {
            // not handled: that needs a reason
            must_serve(s, o, i, x, r, &tg, prev, served);
            if let Some(re) = re {
                o.bad(&with(&tg, &["C03", "C06"]), "response without handling", Some(c), format!("request {} (conn {} #{}) got a response ({}) but was never processed", r.token, c, x.req, re.status));
            }
            over = Some("a request that was not handled");
            break;
        }
        let mut call: Option<&Group> = None;
        if let Some(g) = g {
            gi += 1;
            call = Some(g);
            let t = g.token();
            let tagged = !sc.cfilters.is_empty() && !plan.view.authority || handled;
            if tagged && t.as_ref() != Some(&r.token) || g.start.is_some() && !handled {
                let mut p = with(&tg, &["C03", "C06", "C02"]);
                if g.start.is_some() && !handled {
                    p.push("C19");
                    p.push("C09");
                }
                o.bad(
                    &p,
                    "wrong request",
                    Some(c),
                    format!("conn {}: expected request {} ({}), found {} for {:?} ({:?})", c, r.token, r.target_string(), g.kind(), t, plan.outcome),
                );
                return;
            }
            // the whole head has to be there
            if let Some(f) = g.first {
                o.did("C03");
                if f.consumed < x.head_end + i.hello {
                    o.bad(&["C03", "C06", "C18"], "handled too early", Some(c), format!("request {} was handled when only {} of {} bytes of its head were there", r.token, f.consumed, x.head_end + i.hello));
                }
            }
        }
        group(s, o, i, r, &plan, call, &tg);
        let reads = call.map(|g| bodies(s, o, i, x, r, g));
        let fully_read = match r.body {
            Body::None => true,
            Body::Sized(ref b) if b.len() == 0 && r.claim.is_none() => true,
            _ => reads == Some(true),
        };
        if !matches!(r.body, Body::None) {
            o.did("C06");
            if !fully_read {
                o.count("unread_bodies");
            }
        }
        served += 1;
        // --- the response
        let empty = Group::default();
        let g = call.unwrap_or(&empty);
        let obs = Observed {
            replaced: g.replaced,
            rf: rf_calls(g),
            echo: g
                .body
                .iter()
                .filter_map(|e| match e.what {
                    What::App(Ev::Read { ref bytes, ref err, who: "echo", .. }) => Some(if err.is_some() { None } else { Some(bytes.clone()) }),
                    _ => None,
                })
                .collect(),
            name: plan.view.query.get(&b"file"[..]).cloned(),
        };
        let op = &sc.ops[r.op as usize];
        if let Respond::Served(..) = op.respond {
            o.did("C21");
        }
        let cf_tag = if sc.cfilters.is_empty() { None } else { Some(r.op) };
        let exp = match plan.outcome {
            Outcome::BadAuthority => model::empty_response(sc, None, 400),
            Outcome::Star => model::empty_response(sc, cf_tag, 200),
            Outcome::CfAbort(st) => model::empty_response(sc, cf_tag, st),
            Outcome::CfPanic => model::panicked(),
            Outcome::Miss(st) => model::empty_response(sc, cf_tag, st),
            Outcome::Handler { status, .. } => {
                let tag = if op.handler_storage { Some(r.op) } else { cf_tag };
                model::response(sc, op, status, tag, &obs, sc.router.kind == RouterKind::Content)
            }
        };
        if !handled || !exp.api.is_empty() || g.end.is_some() {
            o.did("C10");
        }
        // filter calls
        let want_calls = &exp.calls;
        // what is left of an operation is skipped when the client is gone
        let failed = if i.clean { FOREVER } else { g.api.iter().find(|e| matches!(e.what, What::App(Ev::Api { ok: false, .. }))).map_or(FOREVER, |e| e.seq) };
        let got_calls = &obs.rf[..g.rf.iter().filter(|e| e.seq < failed).count().min(obs.rf.len())];
        let stuck = i.holder.is_some() && gi == gs.len() && g.end.is_none() && (re.map_or(true, |re| !re.complete) || i.holder == Some(St::Write(c)));
        let same = if i.clean && !stuck { got_calls == &want_calls[..] } else { want_calls.len() >= got_calls.len() && want_calls[..got_calls.len()] == got_calls[..] };
        let boom_early = exp.panics && !exp.headers_kept && want_calls.is_empty();
        if !same && !(boom_early && got_calls.is_empty()) {
            let d = (0..want_calls.len().max(got_calls.len())).find(|&j| want_calls.get(j) != got_calls.get(j)).unwrap_or(0);
            o.bad(
                &with(&tg, &["C08", "C09", "C10"]),
                "filter calls",
                Some(c),
                format!("request {}: response filter call {} is {:?}, should be {:?}", r.token, d, got_calls.get(d), want_calls.get(d)),
            );
        }
        if !sc.rfilters.is_empty() {
            o.did("C08");
            if same && (!handled || matches!(op.panic, PanicAt::No | PanicAt::AfterSend)) {
                let mut all: Vec<(String, String)> = vec![];
                if handled {
                    all.extend(op.headers.iter().filter(|h| !own_header(&h.0)).map(|(k, v)| (k.to_lowercase(), v.clone())));
                }
                for e in &g.rf {
                    if let What::App(Ev::RF { idx, call: "begin", ref seen, .. }) = e.what {
                        all.sort();
                        if *seen != all {
                            o.bad(&with(&tg, &["C08"]), "headers in filters", Some(c), format!("request {}: response filter {} sees the headers {:?}, should be {:?}", r.token, idx, seen, all));
                        }
                        model::filter_headers(&sc.rfilters[idx as usize], &mut all);
                        all.retain(|h| !own_header(&h.0));
                    }
                }
            }
        }
        api_results(s, o, i, r, g, &exp, &tg, ri);
        let re = match re {
            Some(re) => re,
            None => {
                if i.clean && i.tail.is_none() && !(i.partial_head && i.holder == Some(St::Write(c))) && i.holder != Some(St::Write(c)) {
                    // a thread that still waits for the body is fine
                    if i.holder == Some(St::Read(c)) && x.sent_to < x.end && g.end.is_none() && !i.k.rx_fin {
                        o.count("waiting_for_body");
                    } else {
                        let mut p = with(&tg, &["C03", "C14"]);
                        if exp.panics {
                            p.push("C11");
                        }
                        o.bad(&p, "no response", Some(c), format!("conn {}: request {} was processed but there is no response", c, r.token));
                    }
                }
                if !i.clean {
                    // the connection is broken, but what was received before may still be handled
                    lost = true;
                    continue;
                }
                over = Some("a missing response");
                break;
            }
        };
        if lost {
            o.bad(&with(&tg, &["C01", "C11", "C15"]), "response after a lost one", Some(c), format!("conn {}: a response after one that is missing", c));
        }
        ri += 1;
        response(s, o, i, r, &plan, g, &exp, re, &tg);
        let window = window(i, x, prev, g, re);
        closing(s, o, infos, i, r, op, &exp, re, window, fully_read, handled, &tg);
        date(s, o, i, x, prev, re, &tg);
        flushes(o, i, g, op, &exp, re, &tg);
        if !re.complete && !i.clean && exp.complete && !exp.close && !exp.panics {
            lost = true;
            continue;
        }
        if !re.complete {
            over = Some("an unfinished response");
            must_end = true;
            last_complete_open = false;
            if i.clean && exp.complete && i.holder != Some(St::Write(c)) {
                if i.holder == Some(St::Read(c)) && !k.rx_fin && x.sent_to < x.end {
                    o.count("waiting_for_body");
                    must_end = false;
                } else {
                    o.bad(&with(&tg, &["C14"]), "unfinished response", Some(c), format!("conn {}: the response to {} is not finished ({} of {} bytes of body)", c, r.token, re.body.len(), exp.body.len()));
                }
            }
            break;
        }
        prev = reached(&k.tx_marks, re.end as u64);
        let silent = (sc.cfg.keep_alive.is_none() || asks_to_close(r)) && op_connection(op, handled).1;
        if re.says_close() || re.minor == 0 || r.http10 || silent {
            over = Some("Connection: close");
            must_end = true;
        } else if exp.close || exp.panics {
            over = Some("a panic or a failed response");
            must_end = true;
        }
        last_complete_open = over.is_none();
    }
    // nothing may be left over
    if gi < gs.len() {
        let g = &gs[gi];
        let mut p = vec!["C03", "C06", "C01", "C18"];
        if over == Some("Connection: close") {
            p.extend(["C12", "C13"]);
        }
        if over == Some("a panic or a failed response") || over == Some("an unfinished response") {
            p.extend(["C11", "C15"]);
        }
        o.bad(&p, "extra calls", Some(c), format!("conn {}: unexpected {} for {:?} after {}", c, g.kind(), g.token(), over.unwrap_or("the last request")));
    }
    if ri < i.responses.len() {
        let re = &i.responses[ri];
        let mut p = vec!["C01", "C03", "C06", "C18"];
        if over == Some("Connection: close") {
            p.extend(["C12", "C13"]);
        }
        if over == Some("a panic or a failed response") || over == Some("an unfinished response") {
            p.extend(["C10", "C11", "C15"]);
        }
        o.bad(&p, "extra response", Some(c), format!("conn {}: unexpected response ({}) after {}", c, re.status, over.unwrap_or("the last request")));
    } else if i.partial_head && i.clean && i.holder != Some(St::Write(c)) {
        o.bad(&["C01", "C11"], "unfinished response", Some(c), format!("conn {}: the head of a response is not finished", c));
    }
    if must_end {
        o.did("C13");
        if k.closed.is_none() && i.holder != Some(St::Write(c)) {
            o.bad(&["C13", "C12", "C01", "C11", "C15"], "not closed", Some(c), format!("conn {}: the server does not close the connection after {}", c, over.unwrap_or("?")));
        }
        // and soon
        if let (Some(p), Some(cl)) = (prev, k.closed) {
            // handlers may go on after the response
            let last = i.entries.iter().filter(|e| matches!(e.what, What::App(_))).map(|e| e.at).max().unwrap_or(0);
            let last = last.max(k.tx_marks.iter().map(|m| m.at).max().unwrap_or(0));
            if i.clean && cl.at > p.at.max(last) + 2 * SEC + stalled(s, p.at, cl.at) {
                o.bad(&["C13", "C12"], "closed late", Some(c), format!("conn {}: closed {} ms after {}", c, (cl.at - p.at) / MS, over.unwrap_or("?")));
            }
        }
    }
    idle(s, o, i, prev, served, over, last_complete_open);
}

fn bad_request(s: &Sim, o: &mut Out, i: &Info, x: &crate::core::Sent, ri: usize) {
    let (c, k) = (i.c, i.k);
    o.did("C18");
    o.count("bad_requests");
    if let Some(re) = i.responses.get(ri) {
        if re.status < 400 || re.status > 499 {
            o.bad(&["C18", "C03"], "malformed request accepted", Some(c), format!("conn {}: a malformed request was answered with {}", c, re.status));
        }
    }
    // everything arrived: the connection has to go away
    let all = reached(&k.arrived, x.end + i.hello).is_some();
    if all && i.clean && k.closed.is_none() && i.holder != Some(St::Write(c)) && x.sent_to == x.end {
        let complete = http::find(&i.spec.reqs[x.req].encode().0, b"\r\n\r\n").is_some() || x.end - x.start > 540_000;
        if complete && !s.thrs.iter().any(|t| t.st == St::Write(c)) && k.accepted.is_some() {
            o.bad(&["C18", "C14"], "malformed request keeps the connection", Some(c), format!("conn {}: still open after a malformed request", c));
        }
    }
}

/// A request that was not processed.
fn must_serve(s: &Sim, o: &mut Out, i: &Info, x: &crate::core::Sent, r: &Req, tg: &[&'static str], prev: Option<Mark>, served: usize) {
    let (c, k) = (i.c, i.k);
    if !i.clean || k.client_closed && k.rst_at.is_some() {
        return;
    }
    let here = match reached(&k.arrived, x.head_end + i.hello) {
        Some(m) => m,
        None => return,
    };
    if k.accepted.is_none() {
        // waits for a thread
        if s.held < s.sc.cfg.pool() && c < s.probe_first {
            o.bad(&with(tg, &["C14"]), "never accepted", Some(c), format!("conn {} was never accepted although there are idle threads", c));
        }
        return;
    }
    if here.seq > i.closed_seq {
        return;
    }
    if k.timeouts_fired.iter().any(|t| t.seq < here.seq && t.cum < x.head_end + i.hello) {
        return;
    }
    if i.holder == Some(St::Write(c)) {
        return;
    }
    let _ = prev;
    let mut p = with(tg, &["C03", "C14", "C13"]);
    if served > 0 {
        p.push("C12");
    }
    p.push("C18");
    o.bad(&p, "request not served", Some(c), format!("conn {}: request {} (#{}) arrived completely at {:.6} s but is not processed", c, r.token, x.req, here.at as f64 / 1e9));
}

fn group(s: &Sim, o: &mut Out, i: &Info, r: &Req, plan: &Plan, g: Option<&Group>, tg: &[&'static str]) {
    let sc = s.sc;
    let g = match g {
        Some(g) => g,
        None => return,
    };
    let c = i.c;
    let addr = peer_text(c, i.spec);
    // context filters
    if !plan.view.authority {
        for (j, w) in plan.calls.iter().enumerate() {
            o.did("C09");
            let e = match g.cf.get(j) {
                Some(e) => e,
                None => {
                    // it may still be waiting for the body
                    let last = i.entries.iter().rev().find(|e| matches!(e.what, What::App(_))).map(|e| e.seq);
                    if i.holder.is_some() && last.is_some() && last == g.cf.last().into_iter().chain(g.body.last()).map(|e| e.seq).max() {
                        return;
                    }
                    o.bad(&with(tg, &["C09", "C19"]), "context filter not called", Some(c), format!("request {}: context filter {} was not called", r.token, j));
                    break;
                }
            };
            if let What::App(Ev::CF { idx, op, ref token, ref method, ref path, ref storage, action, addr: ref a }) = e.what {
                if idx != w.idx || op != Some(r.op) || token.as_ref() != Some(&r.token) || *method != w.method || *path != w.path || *storage != w.storage || action != w.action {
                    o.bad(
                        &with(tg, &["C09", "C02"]),
                        "context filter call",
                        Some(c),
                        format!("request {}: context filter call {} was {:?} {:?} {} {:?} {:?} {}, should be {:?}", r.token, j, idx, token, method, path.as_ref().map(|p| http::show(p)), storage, action, w),
                    );
                }
                let addr = w.addr.as_ref().unwrap_or(&addr);
                if a != addr {
                    o.bad(&["C02", "C09"], "client address", Some(c), format!("request {}: the client address is {}, should be {}", r.token, a, addr));
                }
            }
        }
        if g.cf.len() > plan.calls.len() {
            o.bad(&with(tg, &["C09", "C19"]), "context filter after abort", Some(c), format!("request {}: {} context filter calls, should be {}", r.token, g.cf.len(), plan.calls.len()));
        }
    }
    // the handler
    match plan.outcome {
        Outcome::Handler { hid, ref vars, status, ref links } => {
            let h = match g.start {
                Some((_, h)) => h,
                None => {
                    // a filter may still be waiting for the body
                    let last = i.entries.iter().rev().find(|e| matches!(e.what, What::App(_))).map(|e| e.seq);
                    if i.holder.is_some() && last.is_some() && last == g.cf.last().into_iter().chain(g.body.last()).map(|e| e.seq).max() {
                        return;
                    }
                    o.bad(&with(tg, &["C02", "C03", "C19"]), "handler not called", Some(c), format!("request {}: the handler {} was not called", r.token, hid));
                    return;
                }
            };
            o.did("C02");
            let mut diff: Vec<String> = vec![];
            macro_rules! same {
                ($what:expr, $a:expr, $b:expr) => {
                    if $a != $b {
                        diff.push(format!("{}: {:?} should be {:?}", $what, $a, $b));
                    }
                };
            }
            same!("client address", h.addr, plan.view.addr.clone().unwrap_or(addr.clone()));
            same!("handler", h.hid, hid);
            same!("operation", h.op, Some(r.op));
            same!("token", h.token.as_ref(), Some(&r.token));
            same!("method", h.method, plan.view.method);
            same!("path", h.path, plan.view.path);
            same!("variables", h.vars, params(vars));
            same!("query", h.query, params(&plan.view.query));
            same!("fragment", h.fragment, plan.view.fragment);
            same!("http 1.0", h.http10, plan.view.http10);
            same!("accessors", h.wrong, Vec::<String>::new());
            let xh: BTreeMap<String, Vec<u8>> = h.headers.iter().filter(|h| !h.0.eq_ignore_ascii_case("host")).map(|h| (h.0.to_lowercase(), h.1.clone())).collect();
            same!("headers", xh, plan.view.headers);
            let host: Vec<String> = h.headers.iter().filter(|h| h.0 == "Host").map(|h| String::from_utf8_lossy(&h.1).into_owned()).collect();
            same!("host", host, plan.view.host.iter().cloned().collect::<Vec<_>>());
            if let Some(port) = plan.view.port {
                same!("port", h.port, port);
            }
            let mut global_bad = false;
            let eg = simapp::expected_global(sc);
            if h.global != eg {
                global_bad = true;
                diff.push(format!("global: {} should be {}", h.global, eg));
            }
            let mut p = with(tg, &["C02"]);
            if !diff.is_empty() {
                if global_bad || sc.cfilters.len() > 0 {
                    p.push("C09");
                }
                if !links.is_empty() || matches!(sc.router.kind, RouterKind::TreeOrElse) || sc.router.hyperlinks || sc.router.routes.iter().any(|r| r.via != BuildVia::Path) {
                    p.push("C20");
                }
                o.bad(&p, &format!("handler input {}", diff[0].split(':').next().unwrap_or("")), Some(c), format!("request {}: {}", r.token, diff.join("; ")));
            }
            if sc.router.kind != RouterKind::Content {
                let mut d2 = vec![];
                if h.status != status {
                    d2.push(format!("response status {} should be {}", h.status, status));
                }
                if h.storage != plan.storage {
                    d2.push(format!("filter storage {:?} should be {:?}", h.storage, plan.storage));
                }
                o.did("C09");
                if !d2.is_empty() {
                    o.bad(&with(tg, &["C09", "C19", "C20"]), "handler response state", Some(c), format!("request {}: {}", r.token, d2.join("; ")));
                }
            }
            if status != 200 {
                o.did("C19");
            }
            // hyperlinks
            if sc.router.hyperlinks {
                o.did("C20");
            }
            let mut ok = h.links.len() == links.len();
            if ok {
                for (a, (b, d)) in h.links.iter().zip(links) {
                    let hit = a.rsplit_once(' ').map_or(false, |(l, r)| l == b && d.contains(r));
                    ok = ok && hit;
                }
            }
            if !ok {
                o.bad(&with(tg, &["C20", "C02"]), "hyperlinks", Some(c), format!("request {}: hyperlinks {:?} should be {:?}", r.token, h.links, links));
            }
        }
        _ => {
            if g.start.is_some() {
                o.bad(&with(tg, &["C02", "C19", "C09"]), "handler called", Some(c), format!("request {}: a handler was called, should be {:?}", r.token, plan.outcome));
            }
            o.did("C19");
        }
    }
    // what the response filters find in the storage
    let handler_tag = matches!(plan.outcome, Outcome::Handler { .. }) && sc.ops[r.op as usize].handler_storage;
    let tagged = !plan.view.authority && !sc.cfilters.is_empty() || handler_tag;
    let want = if tagged { Some((r.op, r.token.clone())) } else { None };
    let eg = simapp::expected_global(sc);
    for e in &g.rf {
        if let What::App(Ev::RF { idx, call, op, ref token, ref global, .. }) = e.what {
            let got = op.and_then(|o| token.clone().map(|t| (o, t)));
            o.did("C09");
            if got != want {
                o.bad(&with(tg, &["C09"]), "filter storage", Some(c), format!("request {}: response filter {} ({}) finds {:?} in its storage, should be {:?}", r.token, idx, call, got, want));
                break;
            }
            if call != "write" && *global != eg {
                o.bad(&with(tg, &["C09"]), "global", Some(c), format!("request {}: response filter {} finds global {}", r.token, idx, global));
                break;
            }
        }
    }
}

/// Everything that was read from the body of a request. True if the end was reached.
fn bodies(s: &Sim, o: &mut Out, i: &Info, x: &crate::core::Sent, r: &Req, g: &Group) -> bool {
    let c = i.c;
    let body = r.body_bytes();
    let mut pos = 0;
    let mut done = false;
    let mut failed = false;
    let mut late = false;
    let mut mp: Vec<model::Field> = vec![];
    let mut cf_read = false;
    let mut lost = false;
    let bound = r.headers.iter().find(|h| h.0 == "Content-Type").and_then(|h| model::boundary(&h.1));
    let excuse = !i.clean || (i.k.rx_fin || i.k.client_closed) && x.sent_to < x.end;
    let want = model::multipart(&body, bound.as_ref().map_or("", |b| b));
    // (the parser wants two bytes after the end of a form without fields)
    let mp_excuse = excuse || !want.closed || body.len() < bound.as_ref().map_or(0, |b| b.len()) + 6;
    for e in &g.body {
        match e.what {
            What::App(Ev::Read { ref bytes, eof, ref err, who }) => {
                o.did("C04");
                if who == "cfilter" && !bytes.is_empty() {
                    cf_read = true;
                }
                if lost {
                    pos = body[pos..].windows(bytes.len().max(1)).position(|w| w == &bytes[..]).map_or(pos, |p| pos + p);
                }
                let end = pos + bytes.len();
                if end > body.len() || body[pos..end] != bytes[..] {
                    let at = bytes.iter().zip(&body[pos.min(body.len())..]).position(|(a, b)| a != b).unwrap_or(body.len().saturating_sub(pos));
                    o.bad(
                        &["C04", "C02", "C06"],
                        "wrong body",
                        Some(c),
                        format!("request {}: read {} bytes ({}) at {} of the body ({} bytes), which differ from position {}", r.token, bytes.len(), text(bytes), pos, body.len(), pos + at),
                    );
                    return false;
                }
                pos = end;
                if eof {
                    if who == "echo" {
                        late = true;
                    }
                    if pos != body.len() || r.claim.is_some() {
                        o.bad(&["C04", "C03"], "body ends early", Some(c), format!("request {}: the body ({} bytes{}) ends after {} bytes without an error", r.token, body.len(), r.claim.map_or(String::new(), |n| format!(" of {}", n)), pos));
                        return false;
                    }
                    done = done || !late;
                }
                if let Some(ref er) = *err {
                    failed = true;
                    if !excuse {
                        o.bad(&["C04", "C13"], "body read error", Some(c), format!("request {}: reading the body fails: {}", r.token, er));
                        return false;
                    }
                }
                // data cannot be there before it was received
                let _ = e;
            }
            What::App(Ev::QueryBody(ref q)) => {
                o.did("C04");
                cf_read = true;
                match *q {
                    Ok(ref q) => {
                        let want = params(&model::parse_query(&body[pos..]));
                        if x.sent_to < x.end && reached(&i.k.arrived, x.end + i.hello).is_none() {
                            o.bad(&["C04", "C03"], "body ends early", Some(c), format!("request {}: a form that was cut off is parsed without an error", r.token));
                        } else if *q != want {
                            o.bad(&["C04", "C02"], "wrong form", Some(c), format!("request {}: form {:?} should be {:?}", r.token, q, want));
                        }
                        pos = body.len();
                        done = true;
                    }
                    Err(ref er) => {
                        failed = true;
                        // nobody knows how much was read
                        lost = true;
                        if !excuse {
                            o.bad(&["C04", "C13"], "body read error", Some(c), format!("request {}: reading the form fails: {}", r.token, er));
                        }
                    }
                }
            }
            What::App(Ev::MpAsk(is)) => {
                o.did("C05");
                if is != bound.is_some() {
                    o.bad(&["C05", "C04"], "multipart", Some(c), format!("request {}: the body is {}recognised as multipart", r.token, if is { "" } else { "not " }));
                }
            }
            What::App(Ev::MpNone) => {
                o.did("C05");
                if bound.is_some() {
                    o.bad(&["C05", "C04"], "no multipart", Some(c), format!("request {}: a multipart body is not recognised", r.token));
                }
            }
            What::App(Ev::MpField { ref name, ref filename, ref ctype, ref data, ref err }) => {
                o.did("C05");
                mp.push(model::Field { name: name.clone(), filename: filename.clone(), ctype: ctype.as_ref().map(|t| norm(t)), data: data.clone() });
                if err.is_some() {
                    failed = true;
                    if !mp_excuse && !cf_read {
                        o.bad(&["C05", "C04"], "multipart error", Some(c), format!("request {}: reading a field fails: {:?}", r.token, err));
                    }
                }
                if bound.is_none() {
                    o.bad(&["C05"], "multipart", Some(c), format!("request {}: a field in a body that is not multipart", r.token));
                    return false;
                }
                if !cf_read {
                    mp_check(o, c, r, &want, &mp, err.is_some(), false);
                }
            }
            What::App(Ev::MpEnd { ref err }) => {
                o.did("C05");
                if err.is_some() {
                    failed = true;
                    if !mp_excuse && !cf_read {
                        o.bad(&["C05", "C04"], "multipart error", Some(c), format!("request {}: reading the fields fails: {:?}", r.token, err));
                    }
                } else if let (Some(b), false) = (bound.as_ref(), cf_read) {
                    mp_check(o, c, r, &want, &mp, false, true);
                    if x.sent_to < x.end && reached(&i.k.arrived, mp_end(x, &body, b) + i.hello).is_none() {
                        o.bad(&["C05", "C04"], "multipart ends early", Some(c), format!("request {}: a multipart body that was cut off ends without an error", r.token));
                    }
                }
            }
            What::App(Ev::Note(ref n)) if n.starts_with("content:") => o.bad(&["C08", "C07"], "content", Some(c), format!("request {}: {}", r.token, n)),
            What::App(Ev::Note(ref n)) if n.starts_with("another storage") => o.bad(&["C09", "C08"], "storage", Some(c), format!("request {}: {}", r.token, n)),
            What::App(Ev::Note(ref n)) if n.starts_with("status set") || n.starts_with("header ") => o.bad(&["C06", "C07"], "head", Some(c), format!("request {}: {}", r.token, n)),
            What::App(Ev::Note(ref n)) => o.bad(&["C04", "C06"], "note", Some(c), format!("request {}: {}", r.token, n)),
            _ => {}
        }
    }
    let _ = s;
    done && !failed
}

/// Where in the stream the closing delimiter starts.
fn mp_end(x: &crate::core::Sent, body: &[u8], b: &str) -> u64 {
    let d = format!("--{}--", b);
    let p = body.windows(d.len()).rposition(|w| w == d.as_bytes()).unwrap_or(0);
    x.head_end + p as u64
}

fn mp_check(o: &mut Out, c: usize, r: &Req, want: &model::Multi, got: &[model::Field], cut: bool, end: bool) {
    for (j, f) in got.iter().enumerate() {
        let (w, whole) = match (want.fields.get(j), want.partial.as_ref()) {
            (Some(w), _) => (w, true),
            (None, Some(w)) if j == want.fields.len() => (w, false),
            _ => {
                o.bad(&["C05"], "multipart", Some(c), format!("request {}: too many fields", r.token));
                return;
            }
        };
        let last = j + 1 == got.len();
        let data_ok = if cut && last || !whole { w.data.starts_with(&f.data) } else { w.data == f.data };
        if f.name != w.name || f.filename != w.filename || !data_ok {
            o.bad(&["C05", "C04"], "multipart", Some(c), format!("request {}: field {} is {:?} {:?} {} bytes {}, should be {:?} {:?} {} bytes", r.token, j, f.name, f.filename, f.data.len(), text(&f.data), w.name, w.filename, w.data.len()));
            return;
        }
        let t = w.ctype.as_ref().map(|t| norm(t));
        if f.ctype != t {
            o.bad(&["C05"], "multipart", Some(c), format!("request {}: field {} has type {:?}, should be {:?}", r.token, j, f.ctype, t));
        }
    }
    if end && !want.closed {
        o.bad(&["C05", "C04"], "multipart ends early", Some(c), format!("request {}: a multipart body without an end is read without an error", r.token));
    } else if end && got.len() != want.fields.len() {
        o.bad(&["C05"], "multipart", Some(c), format!("request {}: {} fields, should be {}", r.token, got.len(), want.fields.len()));
    }
}

/// Are there any errors that are not looked at?
fn quiet_sends(r: &Respond) -> bool {
    match *r {
        Respond::Chunked(ref p, _) | Respond::Raw(ref p, _) => p.iter().any(|p| matches!(p, Piece::Send(_))),
        _ => false,
    }
}

fn api_results(s: &Sim, o: &mut Out, i: &Info, r: &Req, g: &Group, exp: &Exp, tg: &[&'static str], ri: usize) {
    let c = i.c;
    let op = &s.sc.ops[r.op as usize];
    let got: Vec<(i32, bool, &Entry)> = g
        .api
        .iter()
        .filter_map(|e| match e.what {
            What::App(Ev::Api { step, what, ok, .. }) if what != "echo-read" && what != "open" => Some((step, ok, *e)),
            _ => None,
        })
        .collect();
    // success means that everything was handed over
    for &(step, ok, e) in &got {
        let ignored = matches!(e.what, What::App(Ev::Api { what: "file-ign", .. }));
        // nothing is reported from a response that is dropped, or after an error that was reported
        let ignored = ignored || matches!(op.respond, Respond::Opt(None)) || matches!(e.what, What::App(Ev::Api { what: "file-nf", .. })) || !exp.msgs.is_empty() && got.iter().any(|x| !x.1 && x.2.seq < e.seq);
        if step == -1 && ok && exp.complete && !ignored {
            o.did("C16");
            let done = i.responses.get(ri).map_or(false, |re| re.complete && re.end as u64 <= e.tx);
            if !done {
                let what = match e.what {
                    What::App(Ev::Api { what, .. }) => what,
                    _ => "",
                };
                o.bad(&with(tg, &["C16"]), "acknowledged too early", Some(c), format!("request {}: {} reports success but only {} bytes were sent and the response is not among them", r.token, what, e.tx));
            }
        }
    }
    if g.panicked || g.end.is_none() {
        return;
    }
    let is_file = matches!(op.respond, Respond::File(..) | Respond::Served(..));
    if is_file && exp.api.is_empty() {
        return;
    }
    if i.clean {
        o.did("C10");
        let a: Vec<(i32, bool)> = got.iter().map(|x| (x.0, x.1)).collect();
        if a != exp.api {
            let d = (0..a.len().max(exp.api.len())).find(|&j| a.get(j) != exp.api.get(j)).unwrap_or(0);
            let err = got.get(d).map_or(String::new(), |x| crate::core::describe(x.2));
            o.bad(&with(tg, &["C16", "C10"]), "api result", Some(c), format!("request {}: result {} of the response is {:?}, should be {:?} ({})", r.token, d, a.get(d), exp.api.get(d), err));
        }
        // an abort is reported with its reason, at least the first time
        let mut told = false;
        for &(_, ok, e) in &got {
            if let (false, false, What::App(Ev::Api { err, what, .. })) = (ok, exp.msgs.is_empty() || is_file, &e.what) {
                if *what == "buffered" {
                    told = true;
                    continue;
                }
                let reason = exp.msgs.iter().any(|m| err.contains(&m[..]));
                let closed = (told || quiet_sends(&op.respond)) && err.contains("BrokenPipe");
                if !reason && !closed || err.contains("Interrupted") || err.contains("WouldBlock") {
                    o.bad(&with(tg, &["C10", "C16"]), "abort reason", Some(c), format!("request {}: a filter aborts ({:?}) but the result is {}", r.token, exp.msgs, err));
                }
                told = true;
            }
        }
        // the number of bytes that a write reports
        for &(step, ok, e) in &got {
            if step < 0 || !ok {
                continue;
            }
            if let (Respond::Chunked(ref p, _), What::App(Ev::Api { n, what, .. })) = (&op.respond, &e.what) {
                let at = step as usize;
                match p.get(at) {
                    Some(Piece::TrySend(_)) | Some(Piece::Echo(_)) if *what == "piece" && exp.after.len() > at => {
                        o.did("C07");
                        let should = exp.after[at] - if at == 0 { exp.before } else { exp.after[at - 1] };
                        if *n != should as u64 {
                            o.bad(&with(tg, &["C07", "C16"]), "sent length", Some(c), format!("request {}: piece {} of the response, which has {} bytes, reports {}", r.token, at, should, n));
                        }
                    }
                    Some(Piece::Write(ref b)) if *what == "write" => {
                        o.did("C07");
                        if *n != b.len() as u64 {
                            o.bad(&with(tg, &["C07", "C16"]), "write length", Some(c), format!("request {}: write of {} bytes reports {}", r.token, b.len(), n));
                        }
                    }
                    Some(Piece::Copy(ref b)) if *n != b.len() as u64 => {
                        o.bad(&with(tg, &["C07", "C16"]), "write length", Some(c), format!("request {}: copy of {} bytes reports {}", r.token, b.len(), n));
                    }
                    _ => {}
                }
            }
        }
    }
}

fn response(s: &Sim, o: &mut Out, i: &Info, r: &Req, plan: &Plan, g: &Group, exp: &Exp, re: &Resp, tg: &[&'static str]) {
    let sc = s.sc;
    let c = i.c;
    o.did("C01");
    for t in tg {
        o.did(t);
    }
    let handled = matches!(plan.outcome, Outcome::Handler { .. });
    let op = &sc.ops[r.op as usize];
    let mut p = with(tg, &["C01"]);
    if exp.panics {
        p.push("C11");
    }
    if exp.kind == Kind::File {
        p.push("C15");
    }
    if !exp.status.contains(&re.status) {
        let mut p = p.clone();
        p.push("C06");
        o.bad(&p, "status", Some(c), format!("conn {}: the response to {} ({} {}) has status {}, should be {:?}", c, r.token, r.method, r.target_string(), re.status, exp.status));
        return;
    }
    let want_minor = if r.http10 { 0 } else { 1 };
    if re.minor > want_minor {
        o.bad(&p, "version", Some(c), format!("the response to {} has version 1.{}", r.token, re.minor));
    }
    // framing
    let no_body = re.status == 204 || re.status == 304;
    let framing_ok = no_body
        || match exp.kind {
            Kind::Sized => re.framing == Framing::Sized(exp.body.len() as u64),
            Kind::Chunked => re.framing == Framing::Chunked,
            Kind::Raw | Kind::File => re.framing == Framing::Sized(exp.declared.unwrap_or(0)),
        };
    if r.http10 && re.framing == Framing::Chunked {
        o.bad(&with(&p, &["C07"]), "chunked for HTTP/1.0", Some(c), format!("the response to the HTTP/1.0 request {} is chunked", r.token));
    }
    if !framing_ok {
        o.bad(&with(&p, &["C08", "C07"]), "framing", Some(c), format!("the response to {} is framed as {:?}, should be {:?} with {} bytes", r.token, re.framing, exp.kind, exp.declared.unwrap_or(exp.body.len() as u64)));
        return;
    }
    if r.method == "HEAD" && !re.body.is_empty() {
        o.bad(&p, "body after HEAD", Some(c), format!("the response to the HEAD request {} has {} bytes of body", r.token, re.body.len()));
    }
    // body
    if !no_body {
        let whole = re.complete && exp.complete && !exp.prefix;
        let ok = if whole { re.body == exp.body } else { exp.body.starts_with(&re.body) };
        if !ok {
            let at = re.body.iter().zip(&exp.body).position(|(a, b)| a != b).unwrap_or(re.body.len().min(exp.body.len()));
            o.bad(
                &p,
                "body",
                Some(c),
                format!(
                    "the body of the response to {} ({} bytes) differs from what it should be ({} bytes) at {}: {} should be {}",
                    r.token,
                    re.body.len(),
                    exp.body.len(),
                    at,
                    text(&re.body[at.min(re.body.len())..]),
                    text(&exp.body[at.min(exp.body.len())..])
                ),
            );
        }
        if re.complete && !exp.complete {
            o.bad(&with(&p, &["C11"]), "looks complete", Some(c), format!("the response to {} was cut off but looks complete", r.token));
        }
        if !exp.complete {
            o.did(if exp.kind == Kind::File { "C15" } else { "C11" });
            // what was given away before has to be there
            if i.clean && !exp.prefix && re.body.len() < exp.after.last().cloned().unwrap_or(0).min(exp.body.len()) && re.body != exp.body {
                o.count("short_cut_off");
            }
        }
        if re.framing == Framing::Chunked {
            o.did("C07");
        }
    }
    // headers
    if !exp.headers_kept {
        o.did("C11");
    } else {
        let mut all: Vec<(String, String)> = vec![];
        if handled {
            all.extend(op.headers.iter().map(|(k, v)| (k.to_lowercase(), v.clone())));
        }
        for &f in &exp.rf_headers {
            model::filter_headers(&sc.rfilters[f as usize], &mut all);
        }
        // all but those that the server takes care of
        let mut want: Vec<(String, String)> = all.iter().filter(|h| !own_header(&h.0)).cloned().collect();
        let mut got: Vec<(String, String)> = re.headers.iter().filter(|h| !own_header(&h.0)).map(|(k, v)| (k.to_lowercase(), v.clone())).collect();
        want.sort();
        got.sort();
        if got != want {
            o.bad(&with(&p, &["C08", "C02"]), "headers", Some(c), format!("the response to {} has the headers {:?}, should be {:?}", r.token, got, want));
        }
        let h = |n: &str| all.iter().rev().find(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.clone());
        o.did("C17");
        let server = h("Server").unwrap_or(sc.cfg.server_name.clone());
        if re.count("Server") != 1 || re.header("Server") != Some(&server[..]) {
            o.bad(&with(&p, &["C17"]), "Server header", Some(c), format!("the response to {} has Server: {:?}, should be {:?}", r.token, re.header("Server"), server));
        }
        let filtered = exp.rf_headers.iter().any(|&f| sc.rfilters[f as usize].header.as_ref().map_or(false, |h| h.0 == "Content-Type"));
        let ct = match exp.ctype {
            Some(ref t) if !filtered => t.clone(),
            _ => h("Content-Type").unwrap_or(simapp::content_types()[sc.cfg.content_type as usize].to_string()),
        };
        let other = if exp.maybe_ctype { h("Content-Type").unwrap_or(simapp::content_types()[sc.cfg.content_type as usize].to_string()) } else { ct.clone() };
        if re.count("Content-Type") != 1 || re.header("Content-Type").map(norm) != Some(norm(&ct)) && re.header("Content-Type").map(norm) != Some(norm(&other)) {
            o.bad(&with(&p, &["C17"]), "Content-Type header", Some(c), format!("the response to {} has Content-Type: {:?}, should be {:?}", r.token, re.header("Content-Type"), ct));
        }
    }
    let _ = g;
}

/// The interval in which the decision to close was made.
fn window(i: &Info, x: &crate::core::Sent, prev: Option<Mark>, g: &Group, re: &Resp) -> Option<(u64, u64)> {
    let a = reached(&i.k.consume_marks, x.head_end + i.hello)?.seq.max(prev.map_or(0, |m| m.seq));
    let b = g.first.map_or(FOREVER, |e| e.seq).min(reached(&i.k.tx_marks, re.start as u64 + 1).map_or(FOREVER, |m| m.seq));
    Some((a, b))
}

#[allow(clippy::too_many_arguments)]
fn closing(s: &Sim, o: &mut Out, infos: &[Info], i: &Info, r: &Req, op: &Op, exp: &Exp, re: &Resp, window: Option<(u64, u64)>, fully_read: bool, handled: bool, tg: &[&'static str]) {
    let c = i.c;
    let sc = s.sc;
    let says = re.says_close();
    let pool = sc.cfg.pool();
    let mut must_congest = false;
    let mut may_congest = true;
    if let (Some((_, free)), Some((a, b))) = (sc.cfg.keep_alive, window) {
        if a <= b {
            let low = infos.iter().filter(|k| k.c == c || k.used.map_or(false, |(x, y)| x < a && y > b)).count();
            let high = infos.iter().filter(|k| k.c == c || k.maybe_used.map_or(false, |(x, y)| x < b && y > a)).count();
            must_congest = low + free > pool;
            may_congest = high + free > pool;
            if free > 0 {
                o.did("C12");
                if must_congest {
                    o.count("congested");
                } else if !may_congest {
                    o.count("not_congested");
                }
            }
        }
    } else if sc.cfg.keep_alive.is_none() {
        may_congest = false;
    }
    let req_close = asks_to_close(r);
    let (op_close, op_conn) = op_connection(op, handled);
    if exp.headers_kept {
        // (handlers may replace what the server would have said)
        let must = if sc.cfg.keep_alive.is_none() && !op_conn {
            Some("keep-alive is off")
        } else if req_close && !op_conn {
            Some("the client asked for it")
        } else if op_close {
            Some("the handler asked for it")
        } else if must_congest {
            Some("the threads are needed")
        } else {
            None
        };
        if let Some(m) = must {
            o.did("C13");
            if !says && !(r.http10 || re.minor == 0) {
                let p: &[&'static str] = if must_congest { &["C12", "C13"] } else { &["C13", "C12"] };
                let p = if exp.acted { with(p, &["C10"]) } else { p.to_vec() };
                o.bad(&p, "should close", Some(c), format!("the response to {} does not say Connection: close although {}", r.token, m));
            }
        }
    }
    let may = sc.cfg.keep_alive.is_none() || req_close || op_close || r.http10 || re.minor == 0 || may_congest || !fully_read || exp.panics || exp.close;
    o.did("C13");
    if says && !may {
        o.bad(&["C12", "C13"], "should not close", Some(c), format!("the response to {} says Connection: close without a reason", r.token));
    }
    let _ = tg;
}

fn asks_to_close(r: &Req) -> bool {
    r.headers.iter().any(|h| h.0 == "Connection" && h.1.eq_ignore_ascii_case("close"))
}

/// (does the handler ask for the connection to be closed, does it say anything about it)
fn op_connection(op: &Op, handled: bool) -> (bool, bool) {
    match op.headers.iter().find(|h| handled && h.0 == "Connection") {
        Some(h) => (h.1.split(',').any(|t| t.trim().eq_ignore_ascii_case("close")), true),
        None => (false, false),
    }
}

fn date(s: &Sim, o: &mut Out, i: &Info, x: &crate::core::Sent, prev: Option<Mark>, re: &Resp, tg: &[&'static str]) {
    let c = i.c;
    o.did("C17");
    let a = reached(&i.k.consume_marks, x.head_end + i.hello).map_or(0, |m| m.at);
    // (after an error that passed, responses are sent later than they were made)
    let a = if i.k.tx_err.is_some() { a } else { a.max(prev.map_or(0, |m| m.at)) };
    let b = reached(&i.k.tx_marks, re.start as u64 + 1).map_or(s.now, |m| m.at);
    let v = match re.header("Date") {
        Some(v) if re.count("Date") == 1 => v,
        v => {
            o.bad(&with(tg, &["C17"]), "Date header", Some(c), format!("{} Date headers, {:?}", re.count("Date"), v));
            return;
        }
    };
    let t = match http_date(v) {
        Some(t) => t,
        None => {
            o.bad(&with(tg, &["C17"]), "Date header", Some(c), format!("bad Date: {:?}", v));
            return;
        }
    };
    let mut pts = vec![a, b];
    for j in &s.sc.clock.jumps {
        if j.0 >= a && j.0 <= b {
            pts.push(j.0);
            pts.push(j.0.saturating_sub(1).max(a));
        }
    }
    let v: Vec<i64> = pts.iter().map(|p| (s.rt_at(*p).div_euclid(SEC as i128)) as i64).collect();
    let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    if t < lo || t > hi {
        o.bad(&["C17"], "Date header", Some(c), format!("the response says {:?} ({}), the clock was between {} and {}", re.header("Date"), t, lo, hi));
    }
}

fn flushes(o: &mut Out, i: &Info, g: &Group, op: &Op, exp: &Exp, re: &Resp, tg: &[&'static str]) {
    if exp.kind != Kind::Chunked && exp.kind != Kind::Raw {
        return;
    }
    for e in &g.api {
        if let (false, What::App(Ev::Api { ok: false, .. })) = (exp.msgs.is_empty(), &e.what) {
            return;
        }
        if let What::App(Ev::Api { step, what, ok: true, .. }) = e.what {
            if what != "flush" || step < 0 {
                continue;
            }
            o.did("C07");
            let need = match exp.after.get(step as usize) {
                Some(n) => *n,
                None => continue,
            };
            let pos = if exp.kind == Kind::Raw { Some(re.head_end as u64 + need as u64) } else if need == 0 { Some(re.head_end as u64) } else { re.marks.iter().find(|m| m.1 >= need).map(|m| m.0 as u64 - (m.1 - need) as u64) };
            if pos.map_or(true, |p| e.tx < p) {
                o.bad(&with(tg, &["C07", "C16"]), "flush", Some(i.c), format!("a flush succeeded when {} bytes of body were not sent: {} bytes sent, {:?} needed", need, e.tx, pos));
            }
        }
    }
}

/// For how long threads were stalled between the two times.
fn stalled(s: &Sim, a: u64, b: u64) -> u64 {
    s.stalls.iter().filter(|x| x.1 > a && x.0 < b).map(|x| x.1 - x.0).sum()
}

/// Idle connections: neither closed too early nor too late.
fn idle(s: &Sim, o: &mut Out, i: &Info, prev: Option<Mark>, served: usize, over: Option<&'static str>, open: bool) {
    let (c, k) = (i.c, i.k);
    let t = s.sc.cfg.keep_alive.map(|k| k.0);
    // timeouts only while waiting for another request
    for m in &k.timeouts_fired {
        o.did("C13");
        let ok = t.is_some() && (served > 0 || !i.clean && (k.tx_err.is_some() || !k.tx_marks.is_empty()));
        if !ok {
            o.bad(&["C13", "C04"], "timeout", Some(c), format!("conn {}: a read times out at {:.6} s although there was no response yet, or no keep-alive", c, m.at as f64 / 1e9));
            continue;
        }
        let last_rx = k.consume_marks.iter().filter(|x| x.seq < m.seq).map(|x| x.at).max().unwrap_or(0);
        let last_tx = k.tx_marks.iter().filter(|x| x.seq < m.seq).map(|x| x.at).max().unwrap_or(0);
        if m.at < last_rx.max(last_tx) + t.unwrap() {
            o.bad(&["C13"], "timeout", Some(c), format!("conn {}: a read times out after {} ms", c, (m.at - last_rx.max(last_tx)) / MS));
        }
        // in the middle of a request?
        for x in &k.sent {
            if i.spec.reqs[x.req].bad.is_none() && m.cum >= x.head_end + i.hello && m.cum < x.end + i.hello && k.tx_marks.iter().all(|y| y.seq < m.seq) {
                // only if that request was handled, and not answered
                let handled = i.entries.iter().any(|e| matches!(e.what, What::App(Ev::HStart(ref h)) if h.token.as_ref() == Some(&i.spec.reqs[x.req].token)) && e.seq < m.seq);
                let answered = i.entries.iter().any(|e| matches!(e.what, What::App(Ev::HEnd)) && e.seq < m.seq && e.consumed >= x.head_end + i.hello);
                if handled && !answered {
                    o.bad(&["C13", "C04"], "timeout", Some(c), format!("conn {}: a timeout interrupts a request body", c));
                }
            }
        }
    }
    if !i.clean || served == 0 || !open || over.is_some() {
        return;
    }
    let (t, p) = match (t, prev) {
        (Some(t), Some(p)) => (t, p),
        _ => return,
    };
    let last_rx = k.consume_marks.iter().map(|m| m.at).max().unwrap_or(0);
    let last = last_rx.max(p.at);
    let slack = 2 * SEC + stalled(s, last, s.now);
    match k.shut.or(k.closed) {
        Some(m) => {
            o.did("C13");
            o.count("idle_closed");
            let fin = k.fin_at.map_or(FOREVER, |f| f.seq);
            if m.seq < fin && m.at < p.at + t {
                let mut ps = vec!["C13", "C12", "C14"];
                if i.spec.reqs.iter().any(|r| !matches!(r.body, Body::None)) {
                    ps.extend(["C06", "C04"]);
                }
                o.bad(&ps, "closed early", Some(c), format!("conn {}: closed {} ms after a response without saying so, the timeout is {} ms", c, (m.at - p.at) / MS, t / MS));
            }
            if m.at > last + t + slack {
                o.bad(&["C13"], "closed late", Some(c), format!("conn {}: closed {} ms after the last activity, the timeout is {} ms", c, (m.at - last) / MS, t / MS));
            }
        }
        None => {
            if i.holder != Some(St::Write(c)) {
                o.bad(&["C13", "C14"], "never closed", Some(c), format!("conn {}: idle after {} responses but never closed", c, served));
            }
        }
    }
}

fn liveness(s: &Sim, o: &mut Out, infos: &[Info]) {
    // connections that nobody takes care of
    for i in infos {
        if i.k.accepted.is_some() && i.k.closed.is_none() && i.holder.is_none() {
            o.bad(&["C14", "C13", "C11"], "leaked connection", Some(i.c), format!("conn {} was accepted but is neither closed nor served", i.c));
        }
        if i.k.started && i.k.accepted.is_none() && i.k.closed.is_none() && i.c < s.probe_first && s.held < s.sc.cfg.pool() && s.listening {
            o.bad(&["C14"], "never accepted", Some(i.c), format!("conn {} was never accepted although only {} of {} threads are held", i.c, s.held, s.sc.cfg.pool()));
        }
    }
    if s.probes_started == 0 {
        return;
    }
    o.did("C14");
    o.did("C11");
    let mut lost = vec![];
    let mut lo = 0;
    let mut hi = u64::MAX;
    for c in s.probe_first..s.probe_first + s.probes_started {
        let t = &s.specs[c].reqs[0].token;
        let st = s.log.iter().find(|e| matches!(e.what, What::App(Ev::HStart(ref h)) if h.token.as_ref() == Some(t)));
        let en = st.and_then(|st| s.log.iter().find(|e| e.conn == Some(c) && e.seq > st.seq && matches!(e.what, What::App(Ev::HEnd) | What::Sys(Sys::Exit))));
        match (st, en) {
            (Some(a), Some(b)) => {
                lo = lo.max(a.at);
                hi = hi.min(b.at);
            }
            _ => lost.push(c),
        }
    }
    if !lost.is_empty() {
        o.bad(&["C14", "C11", "C18"], "lost capacity", None, format!("{} of {} requests that need a thread each were not handled at the end ({} of {} threads are held by clients)", lost.len(), s.probes_started, s.held, s.sc.cfg.pool()));
    } else if lo > hi {
        o.bad(&["C14", "C11"], "lost capacity", None, format!("{} requests could not be handled at the same time at the end ({} of {} threads are held by clients)", s.probes_started, s.held, s.sc.cfg.pool()));
    }
    let _ = BTreeSet::<u8>::new();
}
