//! The reference model: what a request means, which handler it belongs to and what the response
//! has to be. Written from the documentation; shares no code with rustful.
use simproto::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Params = BTreeMap<Vec<u8>, Vec<u8>>;

pub fn pct_decode(s: &[u8]) -> Vec<u8> {
    let hex = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                o.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        o.push(s[i]);
        i += 1;
    }
    o
}

pub fn parse_query(q: &[u8]) -> Params {
    let mut p = Params::new();
    let q: Vec<u8> = q.iter().map(|&b| if b == b'+' { b' ' } else { b }).collect();
    for part in q.split(|&b| b == b'&') {
        let mut kv = part.split(|&b| b == b'=');
        let k = kv.next().unwrap_or(b"");
        let v = kv.next().unwrap_or(b"");
        p.insert(pct_decode(k), pct_decode(v));
    }
    p
}

// ------------------------------------------------------------------ the request

#[derive(Clone, Debug)]
pub struct View {
    pub op: u32,
    pub token: String,
    pub method: String,
    /// None for `*`
    pub path: Option<Vec<u8>>,
    pub query: Params,
    pub fragment: Option<Vec<u8>>,
    pub host: Option<String>,
    /// the port of an absolute target
    pub port: Option<Option<u16>>,
    /// all headers but the host, by their names in lower case
    pub headers: BTreeMap<String, Vec<u8>>,
    pub authority: bool,
    /// path variables, address and version, as far as filters have set them
    pub vars: Params,
    pub addr: Option<String>,
    pub http10: bool,
}

pub fn view(r: &Req) -> View {
    let mut headers = BTreeMap::new();
    let mut host = None;
    for line in r.encode().0.split(|&b| b == b'\n').skip(1) {
        let line = line.strip_suffix(b"\r").unwrap_or(line);
        let colon = match line.iter().position(|&b| b == b':') {
            Some(i) => i,
            None => continue,
        };
        let k = String::from_utf8_lossy(&line[..colon]).to_lowercase();
        let v = line[colon + 1..].trim_ascii();
        if k == "host" {
            host = Some(String::from_utf8_lossy(v).into_owned());
            continue;
        }
        let more = headers.contains_key(&k);
        let all: &mut Vec<u8> = headers.entry(k).or_default();
        if more {
            all.extend_from_slice(b", ");
        }
        all.extend_from_slice(v);
    }
    let mut v = View {
        op: r.op,
        token: r.token.clone(),
        method: r.method.clone(),
        path: None,
        query: Params::new(),
        fragment: None,
        host,
        port: None,
        headers,
        authority: false,
        vars: Params::new(),
        addr: None,
        http10: r.http10,
    };
    match r.target {
        Target::Star => {}
        Target::Authority(_) => v.authority = true,
        Target::Origin | Target::Absolute(_) => {
            if let Target::Absolute(ref a) = r.target {
                if let Some(h) = url_host(a) {
                    v.host = Some(h);
                    v.port = Some(url_port(a));
                }
            }
            v.path = Some(pct_decode(if r.path.is_empty() { b"/" } else { r.path.as_bytes() }));
            if let Some(ref q) = r.query {
                v.query = parse_query(q.as_bytes());
            }
            v.fragment = r.fragment.as_ref().map(|f| pct_decode(f.as_bytes()));
        }
    }
    v
}

/// The host and the port of a URL without its path.
fn url_port(a: &str) -> Option<u16> {
    let (scheme, rest) = match a.find("://") {
        Some(i) => (a[..i].to_ascii_lowercase(), &a[i + 3..]),
        None => ("http".to_string(), a),
    };
    let port = rest.rsplit(']').next()?.rsplit('@').next()?.split_once(':')?.1.parse().ok()?;
    if Some(port) == [("http", 80), ("https", 443), ("ftp", 21)].iter().find(|d| d.0 == scheme).map(|d| d.1) {
        None
    } else {
        Some(port)
    }
}

fn url_host(a: &str) -> Option<String> {
    let (scheme, rest) = match a.find("://") {
        Some(i) => (a[..i].to_ascii_lowercase(), &a[i + 3..]),
        None if a.ends_with(':') => return None,
        None => ("http".to_string(), a),
    };
    let rest = &rest[rest.find('@').map_or(0, |i| i + 1)..];
    // the default port goes without saying
    let default = match &scheme[..] {
        "http" => ":80",
        "https" => ":443",
        _ => ":21",
    };
    let rest = rest.strip_suffix(default).unwrap_or(rest);
    // (and hyper leaves out two of them for every scheme)
    let rest = rest.strip_suffix(":80").or(rest.strip_suffix(":443")).unwrap_or(rest);
    Some(rest.strip_suffix(":").unwrap_or(rest).to_ascii_lowercase())
}

#[derive(Clone, Debug)]
pub struct CfCall {
    pub idx: u32,
    pub method: String,
    pub path: Option<Vec<u8>>,
    pub storage: Vec<String>,
    pub action: &'static str,
    /// the address, if it has been changed
    pub addr: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CfEnd {
    Next,
    Abort(u16),
    Panic,
}

/// What the context filters do to a request.
pub fn context_filters(sc: &Scenario, v: &mut View) -> (Vec<CfCall>, CfEnd, Vec<String>) {
    let mut calls = vec![];
    let mut marks: Vec<String> = vec![];
    let tag = format!("tag:{}:{}", v.op, v.token);
    for (i, f) in sc.cfilters.iter().enumerate() {
        let abort = f.abort.iter().find(|a| a.0 == v.op).map(|a| a.1);
        let panics = f.panic.contains(&v.op);
        let mut storage = marks.clone();
        if i > 0 {
            storage.push(tag.clone());
        }
        calls.push(CfCall {
            idx: i as u32,
            method: v.method.clone(),
            path: v.path.clone(),
            storage,
            action: if panics { "panic" } else if abort.is_some() { "abort" } else { "next" },
            addr: v.addr.clone(),
        });
        marks.push(format!("cf{}:{}", i, v.token));
        if f.add_header {
            v.headers.insert(format!("x-cf{}", i), format!("cf{}", i).into_bytes());
        }
        if let Some((ref a, ref b)) = f.rewrite {
            if v.path.as_ref().map_or(&b"*"[..], |p| &p[..]) == a.as_bytes() {
                v.path = if b == "*" { None } else { Some(b.clone().into_bytes()) };
            }
        }
        if let Some((ref a, ref b)) = f.set_method {
            if v.method == *a {
                v.method = b.clone();
            }
        }
        if let Some(ref f) = f.set_fragment {
            v.fragment = Some(f.clone().into_bytes());
        }
        if let Some((ref k, ref x)) = f.set_query {
            v.query.insert(k.clone().into_bytes(), x.clone().into_bytes());
        }
        if let Some((ref k, ref x)) = f.set_var {
            v.vars.insert(k.clone().into_bytes(), x.clone().into_bytes());
        }
        if f.set_addr.is_some() {
            v.addr = f.set_addr.clone();
        }
        v.http10 |= f.set_http10;
        if let Some(ref h) = f.drop_header {
            v.headers.remove(&h.to_lowercase());
        }
        let mut st = marks.clone();
        st.push(tag.clone());
        if panics {
            return (calls, CfEnd::Panic, st);
        }
        if let Some(s) = abort {
            return (calls, CfEnd::Abort(s), st);
        }
    }
    let mut st = marks;
    if !sc.cfilters.is_empty() {
        st.push(tag);
    }
    (calls, CfEnd::Next, st)
}

// ------------------------------------------------------------------ routing

#[derive(Default, Debug)]
struct Node {
    stat: BTreeMap<Vec<u8>, Node>,
    var: Option<Box<Node>>,
    wild: Option<Box<Node>>,
    methods: BTreeMap<String, (u32, Vec<String>)>,
    any: Option<(u32, Vec<String>)>,
    fallback: BTreeMap<u16, (u32, Vec<String>)>,
    /// by method, where each has its own
    fallbacks: BTreeMap<String, BTreeMap<u16, (u32, Vec<String>)>>,
}

impl Node {
    fn at(&mut self, path: &[String]) -> &mut Node {
        let mut n = self;
        for s in path {
            n = if s.starts_with('*') {
                n.wild.get_or_insert_with(Default::default)
            } else if s.starts_with(':') {
                n.var.get_or_insert_with(Default::default)
            } else {
                n.stat.entry(s.clone().into_bytes()).or_default()
            };
        }
        n
    }
}

fn names(path: &[String]) -> Vec<String> {
    path.iter().filter(|s| s.starts_with(':') || s.starts_with('*')).map(|s| s[1..].to_string()).collect()
}

fn kept() -> Params {
    Some((KEEP.as_bytes().to_vec(), vec![])).into_iter().collect()
}

fn build(r: &RouterSpec, keep: &dyn Fn(&Route) -> bool) -> Node {
    let mut root = Node::default();
    if r.kind == RouterKind::TreeDefault {
        // the default handler, until something else is there
        root.any = Some((0, vec![]));
    }
    for (i, x) in r.routes.iter().enumerate() {
        if !keep(x) {
            continue;
        }
        if r.kind == RouterKind::TreeDefault {
            let merged = if x.via == BuildVia::Merge { x.split.min(x.path.len()) } else { usize::MAX };
            for k in 0..=x.path.len() {
                let nm = names(&x.path[..k]);
                let n = root.at(&x.path[..k]);
                // also taken from a merged router
                if n.any.is_none() || k >= merged {
                    n.any = Some((0, nm));
                }
            }
        }
        let nm = names(&x.path);
        let n = root.at(&x.path);
        match r.kind {
            RouterKind::TreeOpt | RouterKind::MethodTree | RouterKind::TreeDefault => n.any = Some((x.hid, nm)),
            RouterKind::TreePlain => n.any = Some((x.hid, vec![KEEP.to_string()])),
            RouterKind::MethodOrElse => {
                let mine: Vec<_> = r.fallbacks.iter().filter(|f| f.2 == i).collect();
                let f = n.fallbacks.entry(x.method.clone()).or_default();
                for &&(s, hid, _) in &mine {
                    f.insert(s, (hid, nm.clone()));
                }
                if !mine.iter().any(|f| f.0 == 404) {
                    n.methods.insert(x.method.clone(), (x.hid, nm));
                }
            }
            _ => {
                n.methods.insert(x.method.clone(), (x.hid, nm));
            }
        }
        if r.kind == RouterKind::TreeOrElse {
            for &(s, hid, j) in &r.fallbacks {
                if i == j {
                    root.at(&x.path).fallback.insert(s, (hid, names(&x.path)));
                }
            }
        }
    }
    root
}

fn segments(p: &[u8]) -> Vec<Vec<u8>> {
    let p = p.strip_prefix(b"/").unwrap_or(p);
    let p = p.strip_suffix(b"/").unwrap_or(p);
    if p.is_empty() {
        return vec![];
    }
    p.split(|&b| b == b'/').map(|s| s.to_vec()).collect()
}

/// All nodes a path leads to, the most specific first, with the captured values.
fn search<'n>(n: &'n Node, segs: &[Vec<u8>], vals: &mut Vec<Vec<u8>>, out: &mut Vec<(&'n Node, Vec<Vec<u8>>)>) {
    if segs.is_empty() {
        out.push((n, vals.clone()));
        return;
    }
    if let Some(x) = n.stat.get(&segs[0]) {
        search(x, &segs[1..], vals, out);
    }
    if let Some(ref x) = n.var {
        vals.push(segs[0].clone());
        search(x, &segs[1..], vals, out);
        vals.pop();
    }
    if let Some(ref x) = n.wild {
        for k in 1..=segs.len() {
            vals.push(segs[..k].join(&b'/'));
            search(x, &segs[k..], vals, out);
            vals.pop();
        }
    }
}

/// In place of names: the handler gets the variables that are there already.
const KEEP: &str = "\0";

fn bind(names: &[String], vals: &[Vec<u8>]) -> Params {
    let mut p = Params::new();
    if names.get(0).map_or(false, |n| n == KEEP) {
        return kept();
    }
    for (n, v) in names.iter().zip(vals) {
        if !n.is_empty() {
            p.insert(n.clone().into_bytes(), v.clone());
        }
    }
    p
}

/// (method, path) in the order of the result; the possible descriptions of the handler
pub type Links = Vec<(String, BTreeSet<String>)>;

#[derive(Clone, Debug)]
pub enum Dispatch {
    Handler { hid: u32, vars: Params, status: u16, links: Links },
    Miss(u16),
}

fn links_of(spec: &RouterSpec, nodes: &[(&Node, Vec<Vec<u8>>)], method: &str) -> Links {
    // key: method (none first), then path: (label, type)
    let mut m: BTreeMap<(Option<String>, Vec<(Vec<u8>, u8)>), BTreeSet<String>> = BTreeMap::new();
    let mut add = |me: Option<String>, p: Vec<(Vec<u8>, u8)>, d: String| {
        m.entry((me, p)).or_default().insert(d);
    };
    let desc = |h: u32| match spec.kind {
        RouterKind::Content | RouterKind::Boxed | RouterKind::Arced => "-".to_string(),
        _ => format!("h{}", h),
    };
    for (n, _) in nodes {
        // the trees of the handlers themselves
        for (me, h) in n.any.iter().map(|x| (None, x.0)).chain(n.methods.iter().map(|(me, x)| (Some(me.clone()), x.0))) {
            for p in spec.inner.iter().filter(|x| x.0 == h).flat_map(|x| &x.1) {
                let s = p.split('/').next().unwrap_or("").as_bytes();
                let s = match s.get(0) {
                    Some(b':') => (vec![], 1),
                    Some(b'*') => (vec![], 2),
                    _ => (s.to_vec(), 0),
                };
                add(me.clone(), vec![s], "-".into());
            }
        }
        if let Some((h, _)) = n.any {
            add(None, vec![], desc(h));
        }
        for (me, (h, _)) in &n.methods {
            if me != method {
                add(Some(me.clone()), vec![], desc(*h));
            }
        }
        for (_, (h, _)) in &n.fallback {
            add(None, vec![], desc(*h));
        }
        for k in n.stat.keys() {
            add(None, vec![(k.clone(), 0)], "-".into());
        }
        if n.var.is_some() {
            add(None, vec![(vec![], 1)], "-".into());
        }
        if n.wild.is_some() {
            add(None, vec![(vec![], 2)], "-".into());
        }
    }
    m.into_iter()
        .map(|((me, p), d)| {
            let segs: Vec<String> = p.iter().map(|(l, t)| format!("{}:{}", ["s", "v", "w"][*t as usize], String::from_utf8_lossy(l))).collect();
            (format!("{} {}", me.unwrap_or("-".into()), segs.join("/")), d)
        })
        .collect()
}

/// A tree that gets a request with the status `before`.
fn tree(kind: &RouterKind, root: &Node, hyper: bool, method: &str, segs: &[Vec<u8>], before: u16, spec: &RouterSpec) -> Dispatch {
    // the status after a handler has rejected the request
    let refused = |h: u32, found: u16| spec.refuse.iter().find(|r| r.0 == h).map(|r| if r.1 == 0 { found } else { r.1 });
    let mut found = vec![];
    search(root, segs, &mut vec![], &mut found);
    if !hyper {
        found.truncate(1);
    }
    let links = if hyper { links_of(spec, &found, method) } else { vec![] };
    let mut status = 404;
    for (n, vals) in &found {
        if let Some((h, ref nm)) = n.any {
            match refused(h, before) {
                Some(s) => status = s,
                None => return Dispatch::Handler { hid: h, vars: bind(nm, vals), status: before, links },
            }
            continue;
        }
        let mut missed = 404;
        if let Some(&(h, ref nm)) = n.methods.get(method) {
            match refused(h, before) {
                Some(s) => missed = s,
                None => return Dispatch::Handler { hid: h, vars: bind(nm, vals), status: before, links },
            }
            status = missed;
        }
        if let Some(f) = n.fallbacks.get(method) {
            status = missed;
            if let Some(&(h, ref nm)) = f.get(&missed) {
                match refused(h, missed) {
                    Some(s) => status = s,
                    None => return Dispatch::Handler { hid: h, vars: bind(nm, vals), status: missed, links },
                }
            }
            continue;
        }
        if n.methods.contains_key(method) {
            continue;
        }
        match *kind {
            RouterKind::TreeOpt | RouterKind::MethodTree | RouterKind::TreePlain | RouterKind::TreeDefault => status = 404,
            _ => {
                status = 405;
                if let Some(&(h, ref nm)) = n.fallback.get(&405) {
                    return Dispatch::Handler { hid: h, vars: bind(nm, vals), status: 405, links };
                }
            }
        }
    }
    Dispatch::Miss(status)
}

pub fn dispatch(sc: &Scenario, method: &str, path: &[u8]) -> Dispatch {
    match route(sc, method, path) {
        // nobody has said why
        Dispatch::Miss(200) => Dispatch::Miss(404),
        d => d,
    }
}

fn route(sc: &Scenario, method: &str, path: &[u8]) -> Dispatch {
    let r = &sc.router;
    let segs = segments(path);
    let hyper = r.hyperlinks && r.kind != RouterKind::MethodTree;
    match r.kind {
        RouterKind::Bare => Dispatch::Handler { hid: r.routes.get(0).map_or(0, |r| r.hid), vars: kept(), status: 200, links: vec![] },
        RouterKind::MethodTree => {
            if !r.routes.iter().any(|x| x.method == method) {
                return Dispatch::Miss(405);
            }
            tree(&r.kind, &build(r, &|x| x.method == method), false, method, &segs, 200, r)
        }
        RouterKind::Mount if segs.get(0).map(|s| &s[..]) == Some(MOUNT.as_bytes()) => match segs.get(1).map(|s| &s[..]) {
            Some(s) if s == REFUSE.as_bytes() => Dispatch::Miss(404),
            Some(s) if s == GONE.as_bytes() => Dispatch::Miss(410),
            _ => tree(&r.kind, &build(r, &|x| x.second), hyper, method, &segs[1..], 200, r),
        },
        RouterKind::Mount => tree(&r.kind, &build(r, &|x| !x.second), hyper, method, &segs, 200, r),
        RouterKind::TwoTrees => match tree(&r.kind, &build(r, &|x| !x.second), hyper, method, &segs, 200, r) {
            Dispatch::Miss(status) => tree(&r.kind, &build(r, &|x| x.second), hyper, method, &segs, status, r),
            d => d,
        },
        RouterKind::OrElseStatus => match tree(&r.kind, &build(r, &|_| true), hyper, method, &segs, 200, r) {
            Dispatch::Miss(status) => match r.fallbacks.iter().rev().find(|f| f.0 == status) {
                Some(&(_, hid, _)) => Dispatch::Handler { hid, vars: kept(), status, links: vec![] },
                None => Dispatch::Miss(status),
            },
            d => d,
        },
        RouterKind::StatusTree => match tree(&r.kind, &build(r, &|_| true), hyper, method, &segs, 200, r) {
            Dispatch::Miss(status) if r.fallbacks.iter().any(|f| f.0 == status) => {
                let mut root = Node::default();
                for &(s, hid, i) in &r.fallbacks {
                    if s == status {
                        let p = &r.routes[i].path;
                        root.at(p).any = Some((hid, names(p)));
                    }
                }
                tree(&RouterKind::TreeOpt, &root, false, method, &segs, status, r)
            }
            d => d,
        },
        _ => tree(&r.kind, &build(r, &|_| true), hyper, method, &segs, 200, r),
    }
}

pub fn would_handle(sc: &Scenario, method: &str, raw_path: &str) -> bool {
    let mut p = pct_decode(raw_path.as_bytes());
    let mut method = method;
    for f in &sc.cfilters {
        if let Some((ref a, ref b)) = f.rewrite {
            if &p[..] == a.as_bytes() {
                p = b.clone().into_bytes();
            }
        }
        if let Some((ref a, ref b)) = f.set_method {
            if method == a {
                method = b;
            }
        }
    }
    if p == b"*" {
        return false;
    }
    match dispatch(sc, method, &p) {
        Dispatch::Handler { hid, .. } => hid < 100,
        Dispatch::Miss(_) => false,
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    BadAuthority,
    Star,
    CfAbort(u16),
    CfPanic,
    Miss(u16),
    Handler { hid: u32, vars: Params, status: u16, links: Links },
}

pub struct Plan {
    pub view: View,
    pub calls: Vec<CfCall>,
    /// the storage a handler or response filter finds
    pub storage: Vec<String>,
    pub outcome: Outcome,
}

pub fn plan(sc: &Scenario, r: &Req) -> Plan {
    let mut v = view(r);
    if v.authority {
        return Plan { view: v, calls: vec![], storage: vec![], outcome: Outcome::BadAuthority };
    }
    let (calls, end, storage) = context_filters(sc, &mut v);
    let outcome = match end {
        CfEnd::Abort(s) => Outcome::CfAbort(s),
        CfEnd::Panic => Outcome::CfPanic,
        CfEnd::Next => match v.path {
            None => Outcome::Star,
            Some(ref p) => match dispatch(sc, &v.method, p) {
                Dispatch::Miss(s) => Outcome::Miss(s),
                Dispatch::Handler { hid, mut vars, status, links } => {
                    if vars == kept() {
                        vars = v.vars.clone();
                    }
                    if sc.router.tag {
                        vars.insert(TAG.as_bytes().to_vec(), TAG.as_bytes().to_vec());
                    }
                    Outcome::Handler { hid, vars, status, links }
                }
            },
        },
    };
    Plan { view: v, calls, storage, outcome }
}

// ------------------------------------------------------------------ the response

#[derive(Clone, Debug, PartialEq)]
pub struct RfCall {
    pub idx: u32,
    pub call: &'static str,
    pub status: u16,
    pub n: i64,
    pub writes: u32,
}

enum A {
    Next(Option<Vec<u8>>),
    Silent,
    Abort,
}

/// A scripted panic unwinds through the model as an error, too.
#[derive(Debug)]
struct Boom;

#[derive(Debug)]
enum Stop {
    Abort,
    Boom,
}

impl From<Boom> for Stop {
    fn from(_: Boom) -> Stop {
        Stop::Boom
    }
}

struct Pipe<'a> {
    sc: &'a Scenario,
    op: Option<u32>,
    count: Vec<(u32, u64)>,
    calls: Vec<RfCall>,
    acted: bool,
    /// the reasons that were given for aborts
    msgs: Vec<String>,
}

impl<'a> Pipe<'a> {
    fn act(&mut self, v: &[(u32, Act)]) -> Act {
        let a = self.op.and_then(|o| v.iter().find(|x| x.0 == o)).map_or(Act::Next, |x| x.1.clone());
        if a != Act::Next {
            self.acted = true;
        }
        a
    }
    fn begin(&mut self, j: usize, status: u16) -> Result<(u16, A), Boom> {
        let f = &self.sc.rfilters[j];
        self.calls.push(RfCall { idx: j as u32, call: "begin", status, n: -1, writes: self.count[j].0 });
        let st = match f.set_status {
            Some((a, b)) if a == status => b,
            _ => status,
        };
        Ok((
            st,
            match self.act(&f.begin_act) {
                Act::Next => A::Next(f.begin_out.as_ref().map(|s| s.clone().into_bytes())),
                Act::Silent => A::Silent,
                Act::Abort => self.abort(j, "begin"),
                Act::Panic => return Err(Boom),
            },
        ))
    }
    fn write(&mut self, j: usize, c: Option<Vec<u8>>) -> Result<A, Boom> {
        let f = &self.sc.rfilters[j];
        let c = match c {
            Some(c) => c,
            None => {
                if f.held.is_some() {
                    self.calls.push(RfCall { idx: j as u32, call: "none", status: 0, n: -1, writes: self.count[j].0 });
                }
                return Ok(A::Next(f.held.clone().map(|s| s.into_bytes())));
            }
        };
        let w = self.count[j].0;
        self.count[j].0 += 1;
        self.count[j].1 += c.len() as u64;
        self.calls.push(RfCall { idx: j as u32, call: "write", status: 0, n: c.len() as i64, writes: w });
        let a = self.op.and_then(|o| f.write_act.iter().find(|x| x.0 == o && x.1 == w)).map_or(Act::Next, |x| x.2.clone());
        Ok(match a {
            Act::Next => A::Next(simapp::filters::transform(&f.tf, &c, w)),
            Act::Silent => {
                self.acted = true;
                A::Silent
            }
            Act::Abort => {
                self.acted = true;
                self.abort(j, "write")
            }
            Act::Panic => {
                self.acted = true;
                return Err(Boom);
            }
        })
    }
    fn end(&mut self, j: usize) -> Result<A, Boom> {
        let f = &self.sc.rfilters[j];
        let (w, b) = self.count[j];
        self.calls.push(RfCall { idx: j as u32, call: "end", status: 0, n: -1, writes: w });
        Ok(match self.act(&f.end_act) {
            Act::Next => {
                let mut out = f.end_out.clone();
                if f.end_count {
                    out = Some(format!("{}[{}:{}]", out.unwrap_or_default(), w, b));
                }
                A::Next(out.map(|s| s.into_bytes()))
            }
            Act::Silent => A::Silent,
            Act::Abort => self.abort(j, "end"),
            Act::Panic => return Err(Boom),
        })
    }
    fn abort(&mut self, j: usize, at: &str) -> A {
        self.msgs.push(format!("filter {} {}", j, at));
        A::Abort
    }
    fn through(&mut self, j: usize, q: Vec<A>) -> Result<Vec<A>, Stop> {
        let mut out = vec![];
        let mut abort = false;
        for a in q {
            match a {
                A::Next(c) => out.push(self.write(j, c)?),
                A::Silent => {}
                A::Abort => abort = true,
            }
        }
        if abort {
            Err(Stop::Abort)
        } else {
            Ok(out)
        }
    }
    fn headers(&mut self, status: u16) -> Result<(u16, Vec<A>), Stop> {
        // there is nothing before the first one
        let mut q = vec![A::Next(None)];
        let mut status = status;
        for j in 0..self.sc.rfilters.len() {
            let (st, r) = self.begin(j, status)?;
            status = st;
            if let A::Abort = r {
                return Err(Stop::Abort);
            }
            q = self.through(j, q)?;
            let silent = matches!(r, A::Silent);
            q.push(r);
            if silent {
                break;
            }
        }
        Ok((status, q))
    }
    fn content(&mut self, d: Vec<u8>) -> Result<A, Boom> {
        let mut a = A::Next(Some(d));
        for j in 0..self.sc.rfilters.len() {
            a = match a {
                A::Next(c) => self.write(j, c)?,
                x => return Ok(x),
            };
        }
        Ok(a)
    }
    fn finish(&mut self) -> Result<Vec<A>, Stop> {
        let mut q = vec![];
        for j in 0..self.sc.rfilters.len() {
            q = self.through(j, q)?;
            match self.end(j)? {
                A::Abort => return Err(Stop::Abort),
                A::Silent => {
                    q.push(A::Silent);
                    break;
                }
                x => q.push(x),
            }
        }
        Ok(q)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Sized,
    Chunked,
    Raw,
    File,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub kind: Kind,
    /// acceptable status codes
    pub status: Vec<u16>,
    pub body: Vec<u8>,
    /// the response has to be finished, or has to be recognisably unfinished
    pub complete: bool,
    /// the body may also be a part of `body` only
    pub prefix: bool,
    /// the connection has to be closed
    pub close: bool,
    pub panics: bool,
    pub acted: bool,
    /// the reasons that filters gave for aborting
    pub msgs: Vec<String>,
    pub calls: Vec<RfCall>,
    /// length of the body that was given to the connection after each step of a chunked response
    pub after: Vec<usize>,
    /// the headers that were set are there
    pub headers_kept: bool,
    /// expected results of the API calls: (step, ok)
    pub api: Vec<(i32, bool)>,
    pub ctype: Option<String>,
    /// or the default one
    pub maybe_ctype: bool,
    /// how much of the body was written before the first piece
    pub before: usize,
    /// the filters whose begin was called
    pub rf_headers: Vec<u32>,
    /// for a file: the declared length
    pub declared: Option<u64>,
    pub file_err: Option<String>,
}

pub struct Observed {
    pub rf: Vec<RfCall>,
    pub echo: Vec<Option<Vec<u8>>>,
    /// the query parameter `file`
    pub name: Option<Vec<u8>>,
    /// the file had been replaced when it was opened
    pub replaced: bool,
}

fn exp(kind: Kind, status: u16, body: Vec<u8>) -> Exp {
    Exp {
        kind,
        status: vec![status],
        body,
        complete: true,
        prefix: false,
        close: false,
        panics: false,
        acted: false,
        msgs: vec![],
        calls: vec![],
        after: vec![],
        headers_kept: true,
        api: vec![],
        ctype: None,
        maybe_ctype: false,
        before: 0,
        rf_headers: vec![],
        declared: None,
        file_err: None,
    }
}

fn rf_headers(_: &Scenario, p: &Pipe) -> Vec<u32> {
    p.calls.iter().filter(|c| c.call == "begin").map(|c| c.idx).collect()
}

/// What a response filter does to the headers.
pub fn filter_headers(f: &RFilter, headers: &mut Vec<(String, String)>) {
    if let Some(ref n) = f.unset {
        headers.retain(|h| !h.0.eq_ignore_ascii_case(n));
    }
    if let Some((ref n, ref v)) = f.header {
        headers.retain(|h| !h.0.eq_ignore_ascii_case(n));
        headers.push((n.to_lowercase(), v.clone()));
    }
}

fn sized(sc: &Scenario, p: &mut Pipe, status: u16, data: Vec<u8>) -> Exp {
    let mut out = vec![];
    let mut st = status;
    let r = (|| -> Result<(), Stop> {
        if sc.rfilters.is_empty() {
            out = data.clone();
            return Ok(());
        }
        let (s, q) = p.headers(status)?;
        st = s;
        for a in q {
            match a {
                A::Next(Some(c)) => out.extend(c),
                A::Next(None) => {}
                A::Abort => return Err(Stop::Abort),
                A::Silent => break,
            }
        }
        match p.content(data.clone())? {
            A::Next(Some(c)) => out.extend(c),
            A::Abort => return Err(Stop::Abort),
            _ => {}
        }
        for a in p.finish()? {
            match a {
                A::Next(Some(c)) => out.extend(c),
                A::Next(None) => {}
                A::Abort => return Err(Stop::Abort),
                A::Silent => break,
            }
        }
        Ok(())
    })();
    let mut e = exp(Kind::Sized, st, out);
    match r {
        Ok(()) => {}
        Err(Stop::Abort) => {
            e.kind = Kind::Chunked;
            e.body = vec![];
            e.status = vec![st, status];
            e.api.push((-1, false));
        }
        Err(Stop::Boom) => {
            e = boom(e);
        }
    }
    e.acted = p.acted;
    e.msgs = p.msgs.clone();
    e.calls = p.calls.clone();
    e.rf_headers = rf_headers(sc, p);
    if e.api.is_empty() {
        e.api.push((-1, true));
    }
    e
}

/// A panic before anything was sent.
fn boom(mut e: Exp) -> Exp {
    e.kind = Kind::Chunked;
    e.status = vec![500];
    e.body = vec![];
    e.close = true;
    e.panics = true;
    e.headers_kept = false;
    e.api.clear();
    e
}

pub fn empty_response(sc: &Scenario, tagged: Option<u32>, status: u16) -> Exp {
    let mut p = Pipe { sc, op: tagged, count: vec![(0, 0); 8], calls: vec![], acted: false, msgs: vec![] };
    sized(sc, &mut p, status, vec![])
}

pub fn panicked() -> Exp {
    boom(exp(Kind::Chunked, 500, vec![]))
}

fn chunked(sc: &Scenario, p: &mut Pipe, status: u16, pieces: &[Piece], fin: &Fin, obs: &Observed) -> Exp {
    let mut e = exp(Kind::Chunked, status, vec![]);
    let mut out: Vec<u8> = vec![];
    // None: nothing was wrong, Some(true): the error has not been reported yet
    let mut failed: Option<bool> = None;
    match p.headers(status) {
        Ok((s, q)) => {
            e.status = vec![s];
            for a in q {
                match a {
                    A::Next(Some(c)) => out.extend(c),
                    A::Next(None) => {}
                    A::Abort => {
                        failed = Some(true);
                        break;
                    }
                    A::Silent => break,
                }
            }
        }
        Err(Stop::Abort) => {
            failed = Some(true);
            e.status = vec![status];
            for c in &p.calls {
                if c.call == "begin" {
                    let f = &sc.rfilters[c.idx as usize];
                    if let Some((a, b)) = f.set_status {
                        if c.status == a {
                            e.status.push(b);
                        }
                    }
                    e.status.push(c.status);
                }
            }
        }
        Err(Stop::Boom) => {
            let mut e = boom(e);
            e.calls = p.calls.clone();
            e.acted = true;
            return e;
        }
    }
    e.before = out.len();
    let mut echo = 0;
    let mut blow = false;
    'pieces: for (i, pc) in pieces.iter().enumerate() {
        let i = i as i32;
        // the data in the pieces that reach the filters
        let whole: Option<Vec<u8>> = match *pc {
            Piece::Send(ref b) | Piece::TrySend(ref b) | Piece::Write(ref b) | Piece::WriteAll(ref b) => Some(b.bytes()),
            Piece::Echo(_) => {
                let v = obs.echo.get(echo).cloned().unwrap_or(None);
                echo += 1;
                match v {
                    Some(v) if !v.is_empty() => Some(v),
                    _ => {
                        e.after.push(out.len());
                        continue;
                    }
                }
            }
            _ => None,
        };
        let mut ok = true;
        let parts: Option<Vec<u8>> = match *pc {
            Piece::Fmt(ref s, n) => Some(format!("{}={}", s, n).into_bytes()),
            Piece::Copy(ref b) => Some(b.bytes()),
            Piece::Buffered(_, ref v) => Some(v.iter().flat_map(|b| b.bytes()).collect()),
            _ => None,
        };
        if let Piece::Sleep(_) = *pc {
            e.after.push(out.len());
            continue;
        }
        if let Piece::Flush = *pc {
            ok = failed.is_none();
            if failed == Some(true) {
                failed = Some(false);
            }
            e.api.push((i, ok));
            e.after.push(out.len());
            continue;
        }
        if failed.is_some() {
            // nothing is written any more
            let touches = whole.is_some() || parts.as_ref().map_or(false, |p| !p.is_empty());
            if touches {
                if !matches!(*pc, Piece::Send(_)) {
                    e.api.push((i, false));
                }
                failed = Some(false);
            } else if matches!(*pc, Piece::Copy(_) | Piece::Fmt(..)) {
                e.api.push((i, true));
            } else if let Piece::Buffered(..) = *pc {
                // the final flush reaches the response
                e.api.push((i, false));
                failed = Some(false);
            }
            e.after.push(out.len());
            continue;
        }
        if let Some(d) = whole {
            match p.content(d) {
                Ok(A::Next(Some(c))) => out.extend(c),
                Ok(A::Next(None)) | Ok(A::Silent) => {}
                Ok(A::Abort) => ok = false,
                Err(Boom) => {
                    blow = true;
                    break 'pieces;
                }
            }
        } else if let Some(d) = parts {
            if sc.rfilters.is_empty() {
                out.extend(d);
            } else {
                let mut pos = 0;
                while pos < d.len() {
                    let n = match obs.rf.get(p.calls.len()) {
                        Some(c) if c.call == "write" && c.idx == 0 && c.n > 0 && pos + c.n as usize <= d.len() => c.n as usize,
                        // not what we expect; will be noticed when the calls are compared
                        _ => d.len() - pos,
                    };
                    match p.content(d[pos..pos + n].to_vec()) {
                        Ok(A::Next(Some(c))) => out.extend(c),
                        Ok(A::Abort) => {
                            ok = false;
                            break;
                        }
                        Ok(_) => {}
                        Err(Boom) => {
                            blow = true;
                            break 'pieces;
                        }
                    }
                    pos += n;
                }
            }
        }
        if !matches!(*pc, Piece::Send(_)) {
            e.api.push((i, ok));
        }
        e.after.push(out.len());
    }
    if blow || *fin == Fin::Panic {
        e.body = out;
        e.panics = true;
        e.close = true;
        if failed.is_some() {
            // it was finished when it failed to start
            e.prefix = true;
        } else {
            e.complete = false;
        }
    } else {
        if failed.is_none() {
            match p.finish() {
                Ok(q) => {
                    let mut ok = true;
                    for a in q {
                        match a {
                            A::Next(Some(c)) => out.extend(c),
                            A::Abort => {
                                ok = false;
                                break;
                            }
                            _ => {}
                        }
                    }
                    e.api.push((-1, ok));
                }
                Err(Stop::Abort) => e.api.push((-1, false)),
                Err(Stop::Boom) => {
                    e.panics = true;
                    e.close = true;
                    e.complete = false;
                }
            }
        } else {
            e.api.push((-1, false));
        }
        e.body = out;
    }
    if *fin != Fin::End {
        e.api.retain(|a| a.0 != -1);
    }
    e.acted = p.acted;
    e.msgs = p.msgs.clone();
    e.calls = p.calls.clone();
    e.rf_headers = rf_headers(sc, p);
    e
}

/// (extension, type), from a copy of the list of the Apache project.
pub fn mimes() -> &'static Vec<(&'static str, &'static str)> {
    static LIST: std::sync::OnceLock<Vec<(&str, &str)>> = std::sync::OnceLock::new();
    LIST.get_or_init(|| {
        let mut m = BTreeMap::new();
        for l in include_str!("mime.types").lines() {
            let mut p = l.split_whitespace();
            let t = p.next().unwrap_or("");
            for e in p {
                m.insert(e, t);
            }
        }
        m.into_iter().collect()
    })
}

fn mime(path: &str, custom: bool) -> &'static str {
    let name = path.rsplit('/').next().unwrap_or("");
    let ext = match name.rsplit_once('.') {
        Some(("", _)) | None => "",
        Some((_, x)) => x,
    };
    if custom && ext == "simx" {
        return "application/x-simx";
    }
    mimes().iter().find(|m| m.0 == ext).map_or("application/octet-stream", |m| m.1)
}

pub fn io_message(nf: bool) -> &'static str {
    if nf {
        "NotFound"
    } else {
        "Other"
    }
}

/// The file that a name from a client leads to, or the reason why it doesn't pass.
fn served(sc: &Scenario, name: &[u8]) -> Result<FileSpec, &'static str> {
    if name.starts_with(b"/") {
        return Err("RootDir");
    }
    let parts: Vec<&[u8]> = name.split(|&b| b == b'/').collect();
    if parts.contains(&&b".."[..]) {
        return Err("ParentDir");
    }
    let clean: Vec<&[u8]> = parts.iter().cloned().filter(|p| !p.is_empty() && *p != b".").collect();
    let path = clean.join(&b'/');
    let mut f = FileSpec {
        path: String::from_utf8_lossy(&path).into_owned(),
        data: Blob::Gen(0, 4096),
        exists: true,
        open_err: 0,
        stat_err: 0,
        read_err: None,
        resize: None,
        max_read: 0,
        eintr: false,
        replaced: None,
        new_len: None,
        huge: None,
    };
    if name.contains(&0) {
        f.open_err = libc::EINVAL;
        return Ok(f);
    }
    let must_dir = name.ends_with(b"/") || name.ends_with(b"/.");
    let inside = |p: &[u8], dir: &[u8]| p.starts_with(dir) && (dir.is_empty() || p.get(dir.len()) == Some(&b'/'));
    for x in &sc.files {
        let q = x.path.as_bytes();
        if x.exists && (q == &path[..] && must_dir || inside(&path, q)) {
            f.open_err = libc::ENOTDIR;
            return Ok(f);
        }
        if x.exists && q == &path[..] {
            return Ok(x.clone());
        }
    }
    if sc.files.iter().any(|x| inside(x.path.as_bytes(), &path)) || path.is_empty() {
        f.read_err = Some((0, libc::EISDIR));
    } else {
        f.exists = false;
    }
    Ok(f)
}

fn file(sc: &Scenario, p: &mut Pipe, status: u16, f: &FileSpec, how: &FileApi, replaced: bool) -> Exp {
    // opening
    let open_err = if !f.exists {
        Some(libc::ENOENT)
    } else if f.open_err != 0 {
        Some(f.open_err)
    } else {
        None
    };
    let mime_set = open_err.is_none();
    let any_err = open_err.or(if f.stat_err != 0 { Some(f.stat_err) } else { None });
    let m = match *how {
        FileApi::FileObj => None,
        FileApi::WithMime => Some(mime(&f.path, true).to_string()),
        _ => Some(mime(&f.path, false).to_string()),
    };
    if let Some(e) = any_err {
        let nf = e == libc::ENOENT;
        let (st, body): (u16, Option<String>) = match *how {
            FileApi::FileObj if open_err.is_some() => {
                let ioe = std::io::Error::from_raw_os_error(e);
                (if nf { 404 } else { status }, Some(ioe.to_string()))
            }
            FileApi::NotFoundMsg if nf => (404, Some("no such file".into())),
            FileApi::Ignore => (503, Some("cannot open".into())),
            FileApi::Recover => (410, Some("recovered".into())),
            _ => (if nf { 404 } else { 500 }, None),
        };
        let mut x = sized(sc, p, st, body.map_or(vec![], |b| b.into_bytes()));
        x.api.clear();
        let fin = if let FileApi::NotFoundMsg = *how { nf } else { false };
        x.api.push((-1, fin));
        if mime_set {
            x.ctype = m;
            x.maybe_ctype = true;
        }
        return x;
    }
    let mut data = f.data.bytes();
    if replaced {
        data = other_content(&data, f.new_len);
    }
    let n = f.huge.unwrap_or(data.len() as u64);
    let mut e = exp(Kind::File, status, data.clone());
    e.ctype = m;
    e.declared = Some(n);
    let mut fails = f.huge.is_some();
    if let Some((o, _)) = f.read_err {
        if o < n {
            fails = true;
            e.body.truncate(o as usize);
        }
    }
    if let Some((o, len)) = f.resize {
        // o: the first read at or after that position sees the new length
        if len < n && o < n {
            fails = true;
            e.prefix = true;
        }
    }
    if fails {
        e.complete = false;
        e.close = true;
        // whatever was read before is sent, but reads may end anywhere
        e.prefix = true;
    }
    e.api.push((-1, !fails));
    if fails && *how == FileApi::Ignore {
        e.api = vec![(-1, true)];
    }
    e
}

/// The response of an operation that runs with `status`.
pub fn response(sc: &Scenario, op: &Op, status: u16, tagged: Option<u32>, obs: &Observed, content: bool) -> Exp {
    let mut p = Pipe { sc, op: tagged, count: vec![(0, 0); 8], calls: vec![], acted: false, msgs: vec![] };
    let status = op.status.unwrap_or(status);
    if matches!(op.panic, PanicAt::Start | PanicAt::AfterRead | PanicAt::BeforeSend) {
        let _ = content;
        return panicked();
    }
    let mut e = match op.respond {
        Respond::Drop => {
            let mut e = sized(sc, &mut p, status, vec![]);
            e.api.clear();
            e
        }
        Respond::Send(ref d, ref api) => {
            let mut e = sized(sc, &mut p, status, d.bytes());
            if matches!(*api, SendApi::Send | SendApi::SendData) {
                e.api.clear();
            }
            e
        }
        Respond::Opt(None) => {
            let mut e = sized(sc, &mut p, 404, vec![]);
            if !e.panics {
                // dropped, after a success
                e.api = vec![(-1, true)];
            }
            e
        }
        Respond::Opt(Some(ref d)) => sized(sc, &mut p, status, d.bytes()),
        Respond::Res(Ok(ref d)) => sized(sc, &mut p, 200, d.bytes()),
        Respond::Res(Err(ref d)) => sized(sc, &mut p, 500, d.bytes()),
        Respond::IoErr(nf, ref msg) => sized(sc, &mut p, if nf { 404 } else { status }, msg.clone().into_bytes()),
        Respond::Chunked(ref pieces, ref fin) => chunked(sc, &mut p, status, pieces, fin, obs),
        Respond::Raw(ref pieces, ref fin) => {
            let mut body = vec![];
            for pc in pieces {
                match *pc {
                    Piece::Send(ref b) | Piece::TrySend(ref b) | Piece::Write(ref b) | Piece::WriteAll(ref b) | Piece::Copy(ref b) => body.extend(b.bytes()),
                    Piece::Fmt(ref s, n) => body.extend(format!("{}={}", s, n).into_bytes()),
                    Piece::Buffered(_, ref v) => {
                        for b in v {
                            body.extend(b.bytes())
                        }
                    }
                    _ => {}
                }
            }
            let mut e = exp(Kind::Raw, status, body);
            e.declared = Some(e.body.len() as u64);
            let mut len = 0;
            for (i, pc) in pieces.iter().enumerate() {
                len += simapp::ops::piece_len(pc);
                e.after.push(len);
                if !matches!(*pc, Piece::Send(_) | Piece::Sleep(_) | Piece::Echo(_)) {
                    e.api.push((i as i32, true));
                }
            }
            if *fin == Fin::End {
                e.api.push((-1, true));
            }
            e
        }
        Respond::Served(_, ref how) => match obs.name.as_ref().map(|n| served(sc, n)) {
            None => sized(sc, &mut p, 400, b"no file".to_vec()),
            Some(Err(c)) => sized(sc, &mut p, 403, c.as_bytes().to_vec()),
            Some(Ok(f)) => {
                let mut e = file(sc, &mut p, status, &f, how, obs.replaced);
                if *how == FileApi::SendPathBuf {
                    e.api.clear();
                }
                e
            }
        },
        Respond::File(i, ref how) => {
            let mut e = file(sc, &mut p, status, &sc.files[i as usize], how, obs.replaced);
            if *how == FileApi::SendPathBuf || *how == FileApi::FileObj && e.kind != Kind::File {
                e.api.clear();
            }
            e
        }
    };
    if op.panic == PanicAt::AfterSend && !e.panics {
        e.close = true;
        e.panics = true;
    }
    e
}

// ------------------------------------------------------------------ multipart

#[derive(Debug, PartialEq)]
pub struct Field {
    pub name: String,
    pub filename: Option<String>,
    pub ctype: Option<String>,
    pub data: Vec<u8>,
}

/// The boundary in the content type of a form with files.
pub fn boundary(ctype: &str) -> Option<String> {
    let mut parts = ctype.split(';').map(|p| p.trim());
    if !parts.next().unwrap_or("").eq_ignore_ascii_case("multipart/form-data") {
        return None;
    }
    for p in parts {
        let mut kv = p.splitn(2, '=');
        if kv.next().unwrap_or("").eq_ignore_ascii_case("boundary") {
            return kv.next().map(|v| v.trim_matches('"').to_string());
        }
    }
    None
}

/// A multipart body as the generator writes it, which may be cut off.
pub struct Multi {
    pub fields: Vec<Field>,
    /// the field that has no boundary after it
    pub partial: Option<Field>,
    pub closed: bool,
}

pub fn multipart(body: &[u8], boundary: &str) -> Multi {
    let delim = format!("--{}", boundary).into_bytes();
    let mut m = Multi { fields: vec![], partial: None, closed: false };
    if !body.starts_with(&delim) {
        return m;
    }
    let mut p = delim.len();
    let next = [b"\r\n".to_vec(), delim.clone()].concat();
    loop {
        if body[p..].starts_with(b"--") {
            m.closed = true;
            return m;
        }
        if !body[p..].starts_with(b"\r\n") {
            return m;
        }
        p += 2;
        let h = match crate::http::find(&body[p..], b"\r\n\r\n") {
            Some(h) => h,
            None => return m,
        };
        let head = String::from_utf8_lossy(&body[p..p + h]).into_owned();
        p += h + 4;
        let attr = |n: &str| head.find(&format!(" {}=\"", n)).map(|i| head[i + n.len() + 3..].split('"').next().unwrap_or("").to_string());
        let mut f = Field { name: attr("name").unwrap_or_default(), filename: attr("filename"), ctype: None, data: vec![] };
        f.ctype = head.split("\r\n").find(|l| l.to_lowercase().starts_with("content-type:")).map(|l| l[13..].trim().to_string());
        match crate::http::find(&body[p..], &next) {
            Some(e) => {
                f.data = body[p..p + e].to_vec();
                m.fields.push(f);
                p += e + next.len();
            }
            None => {
                f.data = body[p..].to_vec();
                m.partial = Some(f);
                return m;
            }
        }
    }
}
