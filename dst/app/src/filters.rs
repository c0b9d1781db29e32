use crate::global_string;
use anymap::AnyMap;
use rustful::context::UriPath;
use rustful::filter::*;
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, HttpVersion, StatusCode};
use simproto::*;
use std::io::Read;

/// Which request the storage belongs to.
#[derive(Clone)]
pub struct OpTag {
    pub op: u32,
    pub token: String,
}

/// Per filter state in the request local storage.
#[derive(Default)]
pub struct Counters(pub [(u32, u64); 8]);

/// Marks left by context filters.
#[derive(Default)]
pub struct Marks(pub Vec<String>);

pub fn header_str(headers: &Headers, name: &str) -> Option<String> {
    headers.get_raw(name).and_then(|v| v.get(0)).map(|v| String::from_utf8_lossy(v).into_owned())
}

fn seen(headers: &Headers) -> Vec<(String, String)> {
    let mut v = vec![];
    for h in headers.iter().filter(|h| !own_header(h.name())) {
        for l in headers.get_raw(h.name()).unwrap_or(&[]) {
            v.push((h.name().to_lowercase(), String::from_utf8_lossy(l).into_owned()));
        }
    }
    v.sort();
    v
}

pub fn op_of(headers: &Headers) -> (Option<u32>, Option<String>) {
    (header_str(headers, "X-Op").and_then(|s| s.trim().parse().ok()), header_str(headers, "X-Token"))
}

pub fn marks(storage: &AnyMap) -> Vec<String> {
    let mut m = storage.get::<Marks>().map(|m| m.0.clone()).unwrap_or(vec![]);
    if let Some(t) = storage.get::<OpTag>() {
        m.push(format!("tag:{}:{}", t.op, t.token));
    }
    m
}

pub fn context_filters(sc: &'static Scenario) -> Vec<Box<dyn ContextFilter>> {
    sc.cfilters.iter().enumerate().map(|(i, f)| Box::new(C { idx: i as u32, f }) as Box<dyn ContextFilter>).collect()
}

pub fn response_filters(sc: &'static Scenario) -> Vec<Box<dyn ResponseFilter>> {
    sc.rfilters.iter().enumerate().map(|(i, f)| Box::new(R { idx: i, f }) as Box<dyn ResponseFilter>).collect()
}

struct C {
    idx: u32,
    f: &'static CFilter,
}

impl ContextFilter for C {
    fn modify(&self, fc: FilterContext, ctx: &mut Context) -> ContextAction {
        let (op, token) = op_of(&ctx.headers);
        let path = match ctx.uri_path {
            UriPath::Path(ref p) => Some(p[..].to_vec()),
            UriPath::Asterisk => None,
        };
        let abort = op.and_then(|o| self.f.abort.iter().find(|a| a.0 == o)).map(|a| a.1);
        let panics = op.map_or(false, |o| self.f.panic.contains(&o));
        log(Ev::CF {
            idx: self.idx,
            op,
            token: token.clone(),
            method: ctx.method.to_string(),
            path: path.clone(),
            storage: marks(fc.storage),
            action: if panics { "panic" } else if abort.is_some() { "abort" } else { "next" },
            addr: ctx.address.to_string(),
        });
        if let (Some(op), Some(token)) = (op, token.clone()) {
            if self.idx == 0 {
                fc.storage.insert(OpTag { op, token });
            }
        }
        if fc.storage.get::<Marks>().is_none() {
            fc.storage.insert(Marks::default());
        }
        if let Some(m) = fc.storage.get_mut::<Marks>() {
            m.0.push(format!("cf{}:{}", self.idx, token.unwrap_or(String::new())));
        }
        if self.f.sleep > 0 {
            std::thread::sleep(std::time::Duration::new(self.f.sleep / SEC, (self.f.sleep % SEC) as u32));
        }
        if self.f.add_header {
            let name = format!("X-Cf{}", self.idx);
            ctx.headers.set_raw(name, vec![format!("cf{}", self.idx).into_bytes()]);
        }
        if let Some((ref a, ref b)) = self.f.rewrite {
            if path.as_ref().map_or(&b"*"[..], |p| &p[..]) == a.as_bytes() {
                ctx.uri_path = if b == "*" { UriPath::Asterisk } else { UriPath::Path(b.clone().into()) };
            }
        }
        if let Some((ref a, ref b)) = self.f.set_method {
            if ctx.method.as_ref() == a {
                ctx.method = b.parse().expect("method");
            }
        }
        if let Some(ref f) = self.f.set_fragment {
            ctx.fragment = Some(f.clone().into());
        }
        if let Some((ref k, ref v)) = self.f.set_query {
            ctx.query.insert(k.clone(), v.clone());
        }
        if let Some((ref k, ref v)) = self.f.set_var {
            ctx.variables.insert(k.clone(), v.clone());
        }
        if let Some(ref a) = self.f.set_addr {
            ctx.address = a.parse().expect("address");
        }
        if self.f.set_http10 {
            ctx.http_version = HttpVersion::Http10;
        }
        if let Some(ref h) = self.f.drop_header {
            ctx.headers.remove_raw(h);
        }
        if self.f.ask_multipart {
            log(Ev::MpAsk(ctx.body.as_multipart().is_some()));
        }
        if let Some(n) = self.f.read_body {
            let mut buf = vec![0; n];
            let mut got = 0;
            loop {
                if got == n {
                    log(Ev::Read { bytes: buf[..got].to_vec(), eof: false, err: None, who: "cfilter" });
                    break;
                }
                match ctx.body.read(&mut buf[got..]) {
                    Ok(0) => {
                        log(Ev::Read { bytes: buf[..got].to_vec(), eof: true, err: None, who: "cfilter" });
                        break;
                    }
                    Ok(k) => got += k,
                    Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(e) => {
                        log(Ev::Read { bytes: buf[..got].to_vec(), eof: false, err: Some(format!("{:?}", e.kind())), who: "cfilter" });
                        break;
                    }
                }
            }
        }
        if self.f.read_form {
            crate::ops::read_form(ctx);
        }
        if panics {
            log(Ev::Panic("cfilter"));
            panic!("scripted panic in context filter");
        }
        match abort {
            Some(s) => ContextAction::abort(StatusCode::from_u16(s)),
            None => ContextAction::next(),
        }
    }
}

struct R {
    idx: usize,
    f: &'static RFilter,
}

impl R {
    fn tag(s: &AnyMap) -> (Option<u32>, Option<String>) {
        match s.get::<OpTag>() {
            Some(t) => (Some(t.op), Some(t.token.clone())),
            None => (None, None),
        }
    }
    fn data(&self, v: Vec<u8>) -> Data<'static> {
        if self.f.as_string {
            match String::from_utf8(v) {
                Ok(s) => s.into(),
                Err(e) => e.into_bytes().into(),
            }
        } else {
            v.into()
        }
    }
    fn bump(&self, s: &mut AnyMap, bytes: Option<usize>) -> (u32, u64) {
        if s.get::<Counters>().is_none() {
            s.insert(Counters::default());
        }
        let c = &mut s.get_mut::<Counters>().unwrap().0[self.idx];
        let before = *c;
        if let Some(b) = bytes {
            c.0 += 1;
            c.1 += b as u64;
        }
        before
    }
}

impl ResponseFilter for R {
    fn begin(&self, fc: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction<'_>) {
        let (op, token) = R::tag(fc.storage);
        let g = global_string(fc.global);
        let w = self.bump(fc.storage, None).0;
        log(Ev::RF { idx: self.idx as u32, call: "begin", op, token, status: status.to_u16(), n: -1, writes: w, global: g, seen: seen(headers) });
        let act = op.and_then(|o| self.f.begin_act.iter().find(|a| a.0 == o)).map_or(Act::Next, |a| a.1.clone());
        let mut st = status;
        if let Some((from, to)) = self.f.set_status {
            if status.to_u16() == from {
                st = StatusCode::from_u16(to);
            }
        }
        if let Some(ref k) = self.f.unset {
            headers.remove_raw(k);
        }
        if let Some((ref k, ref v)) = self.f.header {
            headers.set_raw(k.clone(), vec![v.clone().into_bytes()]);
        }
        let action = match act {
            Act::Next => ResponseAction::next(self.f.begin_out.as_ref().map(|s| self.data(s.clone().into_bytes()))),
            Act::Silent => ResponseAction::silent_abort(),
            Act::Abort => ResponseAction::abort(format!("filter {} begin", self.idx)),
            Act::Panic => {
                log(Ev::Panic("rfilter begin"));
                panic!("scripted panic in response filter")
            }
        };
        (st, action)
    }

    fn write<'a>(&'a self, fc: FilterContext, content: Option<Data<'a>>) -> ResponseAction<'a> {
        let (op, token) = R::tag(fc.storage);
        let content = match content {
            Some(c) => c,
            None => {
                if self.f.held.is_some() {
                    let w = self.bump(fc.storage, None).0;
                    log(Ev::RF { idx: self.idx as u32, call: "none", op, token, status: 0, n: -1, writes: w, global: global_string(fc.global), seen: vec![] });
                }
                return ResponseAction::next(self.f.held.as_ref().map(|s| self.data(s.clone().into_bytes())));
            }
        };
        let n = content.as_bytes().len();
        check_data(&content);
        let (writes, _) = self.bump(fc.storage, Some(n));
        log(Ev::RF { idx: self.idx as u32, call: "write", op, token, status: 0, n: n as i64, writes, global: String::new(), seen: vec![] });
        let act = op.and_then(|o| self.f.write_act.iter().find(|a| a.0 == o && a.1 == writes)).map_or(Act::Next, |a| a.2.clone());
        match act {
            Act::Next => {}
            Act::Silent => return ResponseAction::silent_abort(),
            Act::Abort => return ResponseAction::abort(format!("filter {} write", self.idx)),
            Act::Panic => {
                log(Ev::Panic("rfilter write"));
                panic!("scripted panic in response filter")
            }
        }
        match transform(&self.f.tf, content.as_bytes(), writes) {
            None => ResponseAction::next(None::<Data>),
            Some(v) => {
                if self.f.tf == Tf::Ident {
                    ResponseAction::next(Some(content))
                } else {
                    ResponseAction::next(Some(self.data(v)))
                }
            }
        }
    }

    fn end(&self, fc: FilterContext) -> ResponseAction<'_> {
        let (op, token) = R::tag(fc.storage);
        let (w, b) = self.bump(fc.storage, None);
        let g = global_string(fc.global);
        log(Ev::RF { idx: self.idx as u32, call: "end", op, token, status: 0, n: -1, writes: w, global: g, seen: vec![] });
        let act = op.and_then(|o| self.f.end_act.iter().find(|a| a.0 == o)).map_or(Act::Next, |a| a.1.clone());
        match act {
            Act::Next => {
                let mut out = self.f.end_out.clone();
                if self.f.end_count {
                    out = Some(format!("{}[{}:{}]", out.unwrap_or(String::new()), w, b));
                }
                ResponseAction::next(out.map(|s| self.data(s.into_bytes())))
            }
            Act::Silent => ResponseAction::silent_abort(),
            Act::Abort => ResponseAction::abort(format!("filter {} end", self.idx)),
            Act::Panic => {
                log(Ev::Panic("rfilter end"));
                panic!("scripted panic in response filter")
            }
        }
    }
}

/// The content is available in many ways, which have to agree.
fn check_data(d: &Data) {
    let b = d.as_bytes().to_vec();
    let text = String::from_utf8(b.clone()).ok();
    let copy = || match *d {
        Data::Bytes(ref b) => Data::Bytes(b.clone()),
        Data::String(ref s) => Data::String(s.clone()),
    };
    let mut bad = vec![];
    if d.as_string().ok() != text.as_ref().map(|s| &s[..]) {
        bad.push("as_string");
    }
    if copy().into_bytes() != b {
        bad.push("into_bytes");
    }
    match copy().into_string() {
        Ok(s) => {
            if Some(s) != text {
                bad.push("into_string");
            }
        }
        Err(e) => {
            if text.is_some() || e.into_bytes() != b {
                bad.push("into_string error");
            }
        }
    }
    for b in bad {
        log(Ev::Note(format!("content: {}", b)));
    }
}

/// What a filter does with a piece of content; also used by the reference model.
pub fn transform(tf: &Tf, b: &[u8], writes: u32) -> Option<Vec<u8>> {
    Some(match *tf {
        Tf::Ident => b.to_vec(),
        Tf::Upper => b.to_ascii_uppercase(),
        Tf::Xor(k) => b.iter().map(|c| c ^ k).collect(),
        Tf::Wrap(ref a, ref z) => {
            let mut v = a.clone().into_bytes();
            v.extend_from_slice(b);
            v.extend_from_slice(z.as_bytes());
            v
        }
        Tf::Count => {
            let mut v = b.to_vec();
            v.extend_from_slice(format!("#{}", writes).as_bytes());
            v
        }
        Tf::Swallow(m) => {
            if b.get(0) == Some(&m) {
                return None;
            }
            b.to_vec()
        }
        Tf::Dup => {
            let mut v = b.to_vec();
            v.extend_from_slice(b);
            v
        }
    })
}
