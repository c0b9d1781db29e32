use crate::filters::{header_str, marks, op_of, OpTag};
use crate::{global_string, sc};
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, Parameters, UriPath};
use rustful::context::hypermedia::SegmentType;
use rustful::file::check_path;
use rustful::header::Headers;
use rustful::response::{Chunked, Data, FileError, Raw, ResponseError};
use rustful::{Context, Handler, HttpVersion, Response, SendResponse, StatusCode};
use simproto::*;
use std::borrow::Cow;
use std::fs::File;
use std::io::{self, Read, Write};
use std::path::{Path, PathBuf};

/// A handler that does what the operation named by the request says.
#[derive(Default)]
pub struct H {
    pub id: u32,
}

impl Handler for H {
    fn handle(&self, context: Context, response: Response) {
        run(self.id, context, response)
    }
    fn description(&self) -> Option<Cow<'static, str>> {
        Some(format!("h{}", self.id).into())
    }
}

pub fn root() -> &'static str {
    "/simfs"
}

fn sleep(ns: Ns) {
    if ns > 0 {
        std::thread::sleep(std::time::Duration::new(ns / SEC, (ns % SEC) as u32));
    }
}

fn scripted(who: &'static str) -> ! {
    log(Ev::Panic(who));
    panic!("scripted panic: {}", who)
}

pub fn snapshot(hid: u32, ctx: &Context, status: u16, storage: Vec<String>) -> HStart {
    let (op, token) = op_of(&ctx.headers);
    let mut vars: Vec<(Vec<u8>, Vec<u8>)> = (&ctx.variables).into_iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
    vars.sort();
    let mut query: Vec<(Vec<u8>, Vec<u8>)> = (&ctx.query).into_iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
    query.sort();
    let mut headers = vec![];
    for h in ctx.headers.iter() {
        let raw = ctx.headers.get_raw(h.name()).map(|v| v.join(&b", "[..])).unwrap_or(vec![]);
        headers.push((h.name().to_string(), raw));
    }
    headers.sort();
    let links = ctx
        .hyperlinks
        .iter()
        .map(|l| {
            let segs: Vec<String> = l
                .path
                .iter()
                .map(|s| {
                    let t = match s.ty {
                        SegmentType::Static => "s",
                        SegmentType::VariableSegment => "v",
                        SegmentType::VariableSequence => "w",
                    };
                    format!("{}:{}", t, s.label.as_utf8_lossy())
                })
                .collect();
            format!(
                "{} {} {}",
                l.method.as_ref().map_or("-".to_string(), |m| m.to_string()),
                segs.join("/"),
                l.handler.and_then(|h| h.description()).map_or("-".to_string(), |d| d.into_owned())
            )
        })
        .collect();
    HStart {
        addr: ctx.address.to_string(),
        hid,
        op,
        token,
        method: ctx.method.to_string(),
        path: match ctx.uri_path {
            UriPath::Path(ref p) => Some(p[..].to_vec()),
            UriPath::Asterisk => None,
        },
        vars,
        query,
        headers,
        port: ctx.headers.get::<rustful::header::Host>().and_then(|h| h.port),
        fragment: ctx.fragment.as_ref().map(|f| f[..].to_vec()),
        http10: ctx.http_version == HttpVersion::Http10,
        links,
        global: global_string(ctx.global),
        status,
        storage,
        version: ctx.http_version.to_string(),
        wrong: wrong(ctx),
    }
}

/// The path, the fragment and the parameters are available in many ways, which
/// have to agree with the bytes.
fn wrong(ctx: &Context) -> Vec<String> {
    let mut w = vec![];
    {
        let mut say = |ok: bool, what: String| {
            if !ok {
                w.push(what)
            }
        };
        let p = &ctx.uri_path;
        match *p {
            UriPath::Path(ref b) => {
                let b = &b[..];
                say(p.is_path() && !p.is_asterisk(), "path: kind".into());
                say(p.as_path().map_or(false, |q| &q[..] == b), "path: as_path".into());
                say(p.as_utf8_path() == std::str::from_utf8(b).ok(), "path: as_utf8_path".into());
                say(p.as_utf8_path_lossy() == Some(String::from_utf8_lossy(b)), "path: as_utf8_path_lossy".into());
                say(p.to_string() == String::from_utf8_lossy(b), "path: to_string".into());
                say(*p == p.clone(), "path: clone".into());
            }
            UriPath::Asterisk => {
                say(!p.is_path() && p.is_asterisk(), "asterisk: kind".into());
                say(p.as_path().is_none() && p.as_utf8_path().is_none() && p.as_utf8_path_lossy().is_none(), "asterisk: path".into());
                say(p.to_string() == "*", "asterisk: to_string".into());
            }
        }
        if let Some(ref f) = ctx.fragment {
            views(f, "fragment", &mut say);
        }
        for &(name, ps) in &[("variable", &ctx.variables), ("query", &ctx.query)] {
            for (k, v) in ps {
                let key: &[u8] = &k[..];
                let b: &[u8] = &v[..];
                let what = format!("{} {:?}", name, String::from_utf8_lossy(key));
                views(k, &what, &mut say);
                views(v, &what, &mut say);
                say(ps.contains_key(key), format!("{}: contains_key", what));
                say(ps.get_raw(key).map_or(false, |v| &v[..] == b), format!("{}: get_raw", what));
                let text = String::from_utf8_lossy(b);
                say(ps.get(key).as_ref() == Some(&text), format!("{}: get", what));
                if let Ok(k) = std::str::from_utf8(key) {
                    say(ps.get(k).as_ref() == Some(&text), format!("{}: get by str", what));
                }
                let n: Option<u16> = text.parse().ok();
                say(ps.parse::<_, u16>(key).ok() == n, format!("{}: parse", what));
                say(ps.parse::<_, u16>(key).err().map_or(n.is_some(), |e| e.is_some()), format!("{}: parse error", what));
                say(ps.parse_or(key, 7u16) == n.unwrap_or(7), format!("{}: parse_or", what));
                let mut called = None;
                let m = ps.parse_or_else(key, |e: Option<std::num::ParseIntError>| {
                    called = Some(e.is_some());
                    9u16
                });
                say(m == n.unwrap_or(9) && called == if n.is_some() { None } else { Some(true) }, format!("{}: parse_or_else", what));
            }
            let none: &[u8] = b"no such key \xff";
            say(!ps.contains_key(none) && ps.get(none).is_none() && ps.get_raw(none).is_none(), format!("{}: unknown key", name));
            say(ps.parse::<_, u16>(none) == Err(None) && ps.parse_or(none, 3u16) == 3, format!("{}: unknown key parsed", name));
            say(ps.parse_or_else(none, |e: Option<std::num::ParseIntError>| if e.is_none() { 4u16 } else { 5 }) == 4, format!("{}: unknown key parsed or else", name));
            say(*ps == ps.clone(), format!("{}: clone", name));
            copies(ps, name, &mut say);
        }
    }
    w
}

/// Parameters that are changed, copied and taken apart.
fn copies<F: FnMut(bool, String)>(ps: &Parameters, name: &str, say: &mut F) {
    let all = |ps: &Parameters| {
        let mut v: Vec<(Vec<u8>, Vec<u8>)> = ps.into_iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
        v.sort();
        v
    };
    let want = all(ps);
    let none: &[u8] = b"no such key \xff";
    say(ps.len() == want.len() && ps.is_empty() == want.is_empty(), format!("{}: len", name));
    // again, one by one
    let mut c = Parameters::new();
    for (k, v) in &want {
        say(c.insert(k.clone(), v.clone()).is_none(), format!("{}: insert", name));
    }
    say(c == *ps && all(&c) == want, format!("{}: inserted", name));
    c.insert(none.to_vec(), "x");
    say(c != *ps && c.get(none).map_or(false, |v| v == "x"), format!("{}: one more", name));
    say(c.insert(none.to_vec(), "y").map_or(false, |v| &v[..] == b"x"), format!("{}: inserted again", name));
    if let Some(v) = c.get_mut(none) {
        v.push_byte(0xff);
    }
    say(c.get_raw(none).map_or(false, |v| &v[..] == b"y\xff"), format!("{}: get_mut", name));
    say(c.entry(none.to_vec()).or_insert("z".into())[..] == b"y\xff"[..], format!("{}: entry", name));
    say(c.remove(none).map_or(false, |v| &v[..] == b"y\xff") && c.remove(none).is_none(), format!("{}: remove", name));
    say(all(&c) == want, format!("{}: removed", name));
    say(c.entry("another".to_string()).or_insert("z".into())[..] == ps.get_raw("another").map_or(b"z".to_vec(), |v| v[..].to_vec())[..], format!("{}: new entry", name));
    // collected and extended
    let half = want.len() / 2;
    let mut e: Parameters = want[..half].iter().cloned().collect();
    say(all(&e)[..] == want[..half], format!("{}: collect", name));
    e.extend(want[half..].iter().cloned());
    say(e == *ps, format!("{}: extend", name));
    for (_, v) in &mut e {
        v.push_char('!');
    }
    say(want.iter().all(|&(ref k, ref v)| e.get_raw(k).map_or(false, |x| x[..].split_last() == Some((&b'!', &v[..])))), format!("{}: changed", name));
    let map: std::collections::HashMap<_, _> = ps.clone().into();
    say(map.len() == want.len() && *ps == Parameters::from(map), format!("{}: map", name));
    let mut owned: Vec<(Vec<u8>, Vec<u8>)> = ps.clone().into_iter().map(|(k, v)| (k.into(), v.into())).collect();
    owned.sort();
    say(owned == want, format!("{}: into_iter", name));
}

pub fn read_form(ctx: &mut Context) {
    let r = ctx.body.read_query_body().map(|p| {
        let mut v: Vec<(Vec<u8>, Vec<u8>)> = (&p).into_iter().map(|(k, v)| (k[..].to_vec(), v[..].to_vec())).collect();
        v.sort();
        v
    });
    log(Ev::QueryBody(r.map_err(|e| format!("{:?}", e.kind()))));
}

fn views<F: FnMut(bool, String)>(v: &MaybeUtf8Owned, what: &str, say: &mut F) {
    let b = v[..].to_vec();
    let text = std::str::from_utf8(&b);
    say(v.is_utf8() == text.is_ok(), format!("{}: is_utf8", what));
    say(v.as_utf8() == text.ok(), format!("{}: as_utf8", what));
    say(v.as_utf8_lossy() == String::from_utf8_lossy(&b), format!("{}: as_utf8_lossy", what));
    say(v.as_bytes() == &b[..], format!("{}: as_bytes", what));
    let slice: MaybeUtf8<&str, &[u8]> = v.as_slice();
    say(&slice[..] == &b[..] && slice.is_utf8() == text.is_ok(), format!("{}: as_slice", what));
    let mut c = v.clone();
    say(c == *v, format!("{}: clone", what));
    c.push_str("\u{e5}");
    c.push_char('\u{20ac}');
    c.push_byte(0x31);
    let mut d = b.clone();
    d.extend("\u{e5}\u{20ac}1".as_bytes());
    say(&c[..] == &d[..] && c.is_utf8() == text.is_ok(), format!("{}: pushed text", what));
    // half of a character, and the other half
    c.push_bytes(&[0xc3]);
    say(!c.is_utf8(), format!("{}: pushed half", what));
    c.as_buffer().push_bytes(&[0xa5]);
    d.extend(&[0xc3, 0xa5]);
    say(&c[..] == &d[..] && c.is_utf8() == text.is_ok(), format!("{}: pushed other half", what));
    say(*v < c, format!("{}: order", what));
    let s: String = v.clone().into();
    say(s == String::from_utf8_lossy(&b), format!("{}: into string", what));
    let r: Vec<u8> = v.clone().into();
    say(r == b, format!("{}: into bytes", what));
}

fn op_for(headers: &Headers) -> Option<(&'static Op, u32, String)> {
    let (op, token) = op_of(headers);
    op.and_then(|o| sc().ops.get(o as usize).map(|x| (x, o, token.unwrap_or(String::new()))))
}

pub fn run(hid: u32, mut ctx: Context, mut resp: Response) {
    let st = resp.status().to_u16();
    let storage = marks(resp.filter_storage());
    log(Ev::HStart(Box::new(snapshot(hid, &ctx, st, storage))));
    if let Some((op, idx, token)) = op_for(&ctx.headers) {
        if op.handler_storage {
            resp.filter_storage_mut().insert(OpTag { op: idx, token });
        }
        before(op, &mut ctx);
        let name = file_name(&ctx);
        respond(op, resp, Some(ctx), name);
        log(Ev::HEnd);
        if op.panic == PanicAt::AfterSend {
            scripted("after send");
        }
    } else {
        log(Ev::Note("request without operation".into()));
        resp.send("no operation");
        log(Ev::HEnd);
    }
}

fn before(op: &'static Op, ctx: &mut Context) {
    if op.panic == PanicAt::Start {
        scripted("start");
    }
    sleep(op.sleep);
    read_body(op, ctx);
    if op.panic == PanicAt::AfterRead {
        scripted("after read");
    }
}

/// For `ContentFactory`: the same operations, as content.
pub fn content(hid: u32, mut ctx: Context) -> Out {
    log(Ev::HStart(Box::new(snapshot(hid, &ctx, 0, vec![]))));
    let f = op_for(&ctx.headers);
    if let Some((op, idx, token)) = f {
        before(op, &mut ctx);
        Out(Some((op, idx, token, file_name(&ctx))))
    } else {
        Out(None)
    }
}

pub struct Out(Option<(&'static Op, u32, String, Option<Vec<u8>>)>);

fn file_name(ctx: &Context) -> Option<Vec<u8>> {
    ctx.query.get_raw("file").map(|n| n[..].to_vec())
}

impl<'a, 'b> SendResponse<'a, 'b> for Out {
    type Error = rustful::Error;
    fn send_response(self, mut resp: Response<'a, 'b>) -> Result<(), rustful::Error> {
        match self.0 {
            Some((op, idx, token, name)) => {
                if op.handler_storage {
                    resp.filter_storage_mut().insert(OpTag { op: idx, token });
                }
                respond(op, resp, None, name);
                log(Ev::HEnd);
                if op.panic == PanicAt::AfterSend {
                    scripted("after send");
                }
                Ok(())
            }
            None => resp.try_send("no operation"),
        }
    }
}

fn read_body(op: &Op, ctx: &mut Context) {
    match op.read {
        ReadPlan::None => {}
        ReadPlan::End => {
            let mut v = vec![];
            let r = ctx.body.read_to_end(&mut v);
            log(Ev::Read { bytes: v, eof: r.is_ok(), err: r.err().map(|e| format!("{:?}", e.kind())), who: "end" });
        }
        ReadPlan::Bufs(ref sizes) => {
            let mut v = vec![];
            let mut i = 0;
            loop {
                let mut buf = vec![0; sizes[i % sizes.len()] as usize];
                i += 1;
                match ctx.body.read(&mut buf) {
                    // not the end
                    Ok(0) if buf.is_empty() => {}
                    Ok(0) => {
                        // reading on after the end has to stay at the end
                        let again = match ctx.body.read(&mut buf) {
                            Ok(0) => None,
                            Ok(n) => Some(format!("{} more bytes after eof", n)),
                            Err(e) => Some(format!("error after eof: {:?}", e.kind())),
                        };
                        if let Some(a) = again {
                            log(Ev::Note(a));
                        }
                        log(Ev::Read { bytes: v, eof: true, err: None, who: "bufs" });
                        break;
                    }
                    Ok(n) => v.extend_from_slice(&buf[..n]),
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => {
                        log(Ev::Read { bytes: v, eof: false, err: Some(format!("{:?}", e.kind())), who: "bufs" });
                        break;
                    }
                }
            }
        }
        ReadPlan::Partial(n) => {
            let mut v = vec![];
            let r = (&mut ctx.body).take(n as u64).read_to_end(&mut v);
            let eof = r.is_ok() && v.len() < n as usize;
            log(Ev::Read { bytes: v, eof, err: r.err().map(|e| format!("{:?}", e.kind())), who: "partial" });
        }
        ReadPlan::Query => read_form(ctx),
        ReadPlan::Multipart | ReadPlan::MultipartFirst => {
            let first_only = op.read == ReadPlan::MultipartFirst;
            if first_only {
                log(Ev::MpAsk(ctx.body.as_multipart().is_some()));
            }
            match ctx.body.as_multipart() {
                None => log(Ev::MpNone),
                Some(mut mp) => loop {
                    match mp.read_entry() {
                        Ok(Some(mut field)) => {
                            let mut data = vec![];
                            let r = field.data.read_to_end(&mut data);
                            log(Ev::MpField {
                                name: field.headers.name.to_string(),
                                filename: field.headers.filename.clone(),
                                ctype: field.headers.content_type.as_ref().map(|c| c.to_string()),
                                data,
                                err: r.as_ref().err().map(|e| format!("{:?}", e.kind())),
                            });
                            if r.is_err() || first_only {
                                break;
                            }
                        }
                        Ok(None) => {
                            log(Ev::MpEnd { err: None });
                            break;
                        }
                        Err(e) => {
                            log(Ev::MpEnd { err: Some(format!("{:?}", e.kind())) });
                            break;
                        }
                    }
                },
            }
        }
    }
}

enum D {
    S(String),
    B(Vec<u8>),
}

impl<'a> Into<Data<'a>> for D {
    fn into(self) -> Data<'a> {
        match self {
            D::S(s) => s.into(),
            D::B(b) => b.into(),
        }
    }
}

fn data(b: &Blob) -> D {
    if b.is_text() {
        match String::from_utf8(b.bytes()) {
            Ok(s) => D::S(s),
            Err(e) => D::B(e.into_bytes()),
        }
    } else {
        D::B(b.bytes())
    }
}

fn api<T, E: std::fmt::Debug>(step: i32, what: &'static str, r: Result<T, E>, n: impl Fn(&T) -> u64) -> bool {
    match r {
        Ok(ref t) => {
            log(Ev::Api { step, what, ok: true, n: n(t), err: String::new() });
            true
        }
        Err(e) => {
            log(Ev::Api { step, what, ok: false, n: 0, err: format!("{:?}", e) });
            false
        }
    }
}

fn storage_of(s: &crate::anymap::AnyMap) -> (Option<(u32, String)>, Vec<String>) {
    (s.get::<OpTag>().map(|t| (t.op, t.token.clone())), marks(s))
}

fn respond<'a, 'b>(op: &'static Op, mut resp: Response<'a, 'b>, ctx: Option<Context>, name: Option<Vec<u8>>) {
    if let Some(s) = op.status {
        resp.set_status(StatusCode::from_u16(s));
    }
    let status = resp.status().to_u16();
    if op.status.map_or(false, |s| s != status) {
        log(Ev::Note(format!("status set to {:?} is {}", op.status, status)));
    }
    for (i, &(ref k, ref v)) in op.headers.iter().enumerate() {
        if op.headers[..i].iter().any(|h| h.0 == *k) {
            resp.headers_mut().append_raw(k.clone(), v.clone().into_bytes());
        } else {
            resp.headers_mut().set_raw(k.clone(), vec![v.clone().into_bytes()]);
        }
    }
    for &(ref k, ref v) in &op.headers {
        let held = resp.headers().get_raw(k).map_or(false, |x| x.iter().any(|x| &x[..] == v.as_bytes()));
        if !held {
            log(Ev::Note(format!("header {} set to {} is {:?}", k, v, resp.headers().get_raw(k))));
        }
    }
    let mut ctx = ctx;
    if op.drop_ctx_first {
        ctx = None;
    }
    if op.panic == PanicAt::BeforeSend {
        scripted("before send");
    }
    match op.respond {
        Respond::Drop => drop(resp),
        Respond::Send(ref d, ref how) => match *how {
            SendApi::Send => resp.send(data(d)),
            SendApi::TrySend => {
                api(-1, "try_send", resp.try_send(data(d)), |_| 0);
            }
            SendApi::SendData => resp.send_data(data(d)),
            SendApi::TrySendData => {
                api(-1, "try_send", resp.try_send_data(data(d)), |_| 0);
            }
        },
        Respond::Opt(ref o) => {
            let c: Option<D> = o.as_ref().map(data);
            api(-1, "try_send", resp.try_send(c), |_| 0);
        }
        Respond::Res(ref r) => {
            let c: Result<D, D> = match *r {
                Ok(ref d) => Ok(data(d)),
                Err(ref d) => Err(data(d)),
            };
            api(-1, "try_send", resp.try_send(c), |_| 0);
        }
        Respond::IoErr(nf, ref msg) => {
            let e = io::Error::new(if nf { io::ErrorKind::NotFound } else { io::ErrorKind::Other }, msg.clone());
            api(-1, "try_send", resp.try_send(e), |_| 0);
        }
        Respond::Chunked(ref pieces, ref fin) => {
            let tag = storage_of(resp.filter_storage());
            let mut c = resp.into_chunked();
            if storage_of(c.filter_storage()) != tag || storage_of(c.filter_storage_mut()) != tag {
                log(Ev::Note("another storage for the chunked response".into()));
            }
            for (i, p) in pieces.iter().enumerate() {
                chunk_piece(i as i32, p, &mut c, &mut ctx);
            }
            match *fin {
                Fin::End => {
                    api(-1, "end", c.end(), |_| 0);
                }
                Fin::Drop => drop(c),
                Fin::Panic => scripted("mid chunked"),
            }
        }
        Respond::Raw(ref pieces, ref fin) => {
            let len: usize = pieces.iter().map(piece_len).sum();
            let mut r = unsafe { resp.into_raw(len as u64) };
            for (i, p) in pieces.iter().enumerate() {
                raw_piece(i as i32, p, &mut r);
            }
            match *fin {
                Fin::End => {
                    api(-1, "end", r.end(), |_| 0);
                }
                Fin::Drop => drop(r),
                Fin::Panic => scripted("mid raw"),
            }
        }
        Respond::File(idx, ref how) => send_file(Path::new(root()).join(&sc().files[idx as usize].path), how, resp),
        Respond::Served(_, ref how) => {
            use std::os::unix::ffi::OsStrExt;
            match name {
                None => {
                    resp.set_status(StatusCode::BadRequest);
                    api(-1, "no-file", resp.try_send("no file"), |_| 0);
                }
                Some(n) => {
                    let name = Path::new(std::ffi::OsStr::from_bytes(&n));
                    match check_path(name) {
                        Ok(()) => send_file(Path::new(root()).join(name), how, resp),
                        Err(c) => {
                            resp.set_status(StatusCode::Forbidden);
                            let msg = format!("{:?}", c);
                            api(-1, "forbidden", resp.try_send(msg), |_| 0);
                        }
                    }
                }
            }
        }
    }
    drop(ctx);
}

pub fn piece_len(p: &Piece) -> usize {
    match *p {
        Piece::Send(ref b) | Piece::TrySend(ref b) | Piece::Write(ref b) | Piece::WriteAll(ref b) | Piece::Copy(ref b) => b.len(),
        Piece::Fmt(ref s, n) => format!("{}={}", s, n).len(),
        Piece::Buffered(_, ref v) => v.iter().map(|b| b.len()).sum(),
        _ => 0,
    }
}

fn echo(step: i32, n: u32, ctx: &mut Option<Context>) -> Option<Vec<u8>> {
    let ctx = ctx.as_mut()?;
    let mut buf = vec![0; n as usize];
    loop {
        match ctx.body.read(&mut buf) {
            Ok(k) => {
                buf.truncate(k);
                log(Ev::Read { bytes: buf.clone(), eof: k == 0 && n > 0, err: None, who: "echo" });
                return Some(buf);
            }
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => {
                log(Ev::Read { bytes: vec![], eof: false, err: Some(format!("{:?}", e.kind())), who: "echo" });
                log(Ev::Api { step, what: "echo-read", ok: false, n: 0, err: format!("{:?}", e.kind()) });
                return None;
            }
        }
    }
}

fn chunk_piece<'a, 'b>(i: i32, p: &Piece, c: &mut Chunked<'a, 'b>, ctx: &mut Option<Context>) {
    match *p {
        Piece::Send(ref b) => c.send(data(b)),
        Piece::TrySend(ref b) => {
            api(i, "piece", c.try_send(data(b)), |n| *n as u64);
        }
        Piece::Write(ref b) => {
            // tries again if it is told to, but not forever
            let v = b.bytes();
            let mut r = c.write(&v);
            for _ in 0..3 {
                match r {
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => r = c.write(&v),
                    _ => break,
                }
            }
            api(i, "write", r, |n| *n as u64);
        }
        Piece::WriteAll(ref b) => {
            api(i, "write_all", c.write_all(&b.bytes()), |_| 0);
        }
        Piece::Flush => {
            api(i, "flush", c.flush(), |_| 0);
        }
        Piece::Sleep(n) => sleep(n),
        Piece::Echo(n) => {
            if let Some(v) = echo(i, n, ctx) {
                if !v.is_empty() {
                    api(i, "piece", c.try_send(v), |n| *n as u64);
                }
            }
        }
        Piece::Fmt(ref s, n) => {
            api(i, "fmt", write!(c, "{}={}", s, n), |_| 0);
        }
        Piece::Copy(ref b) => {
            api(i, "copy", io::copy(&mut &b.bytes()[..], c), |n| *n);
        }
        Piece::Buffered(cap, ref v) => {
            let mut w = io::BufWriter::with_capacity(cap as usize, &mut *c);
            let mut ok = true;
            // stops at the first error
            for b in v {
                ok = ok && w.write_all(&b.bytes()).is_ok();
            }
            ok = ok && w.flush().is_ok();
            if !ok {
                // don't try again
                let _ = w.into_parts();
            }
            api(i, "buffered", if ok { Ok(()) } else { Err("failed") }, |_| 0);
        }
    }
}

fn raw_piece<'a>(i: i32, p: &Piece, c: &mut Raw<'a>) {
    match *p {
        Piece::Send(ref b) => c.send(data(b)),
        Piece::TrySend(ref b) => {
            api(i, "piece", c.try_send(data(b)), |_| 0);
        }
        Piece::Write(ref b) => {
            // a loop around write, like write_all
            let v = b.bytes();
            let mut pos = 0;
            while pos < v.len() {
                match c.write(&v[pos..]) {
                    Ok(0) => {
                        log(Ev::Api { step: i, what: "write", ok: false, n: 0, err: "write zero".into() });
                        return;
                    }
                    Ok(n) => pos += n,
                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                    Err(e) => {
                        log(Ev::Api { step: i, what: "write", ok: false, n: 0, err: format!("{:?}", e) });
                        return;
                    }
                }
            }
            log(Ev::Api { step: i, what: "write", ok: true, n: pos as u64, err: String::new() });
        }
        Piece::WriteAll(ref b) => {
            api(i, "write_all", c.write_all(&b.bytes()), |_| 0);
        }
        Piece::Flush => {
            api(i, "flush", c.flush(), |_| 0);
        }
        Piece::Sleep(n) => sleep(n),
        Piece::Echo(_) => {}
        Piece::Fmt(ref s, n) => {
            api(i, "fmt", write!(c, "{}={}", s, n), |_| 0);
        }
        Piece::Copy(ref b) => {
            api(i, "copy", io::copy(&mut &b.bytes()[..], c), |n| *n);
        }
        Piece::Buffered(cap, ref v) => {
            let mut w = io::BufWriter::with_capacity(cap as usize, &mut *c);
            let mut ok = true;
            // stops at the first error
            for b in v {
                ok = ok && w.write_all(&b.bytes()).is_ok();
            }
            ok = ok && w.flush().is_ok();
            if !ok {
                // don't try again
                let _ = w.into_parts();
            }
            api(i, "buffered", if ok { Ok(()) } else { Err("failed") }, |_| 0);
        }
    }
}

fn file_api(what: &'static str, r: Result<(), FileError>) {
    match r {
        Ok(()) => log(Ev::Api { step: -1, what, ok: true, n: 0, err: String::new() }),
        Err(e) => {
            let (kind, e2) = match e {
                FileError::Open(ref err, _) => ("open", format!("{:?}", err.kind())),
                FileError::Send(ref err) => ("send", format!("{:?}", err.kind())),
            };
            log(Ev::Api { step: -1, what, ok: false, n: 0, err: format!("{}:{}", kind, e2) });
            e.handle();
        }
    }
}

fn send_file<'a, 'b>(p: PathBuf, how: &FileApi, resp: Response<'a, 'b>) {
    match *how {
        FileApi::SendPathBuf => resp.send(p),
        FileApi::TrySendPath => file_api("file", resp.try_send(&*p)),
        FileApi::WithMime => file_api(
            "file",
            resp.send_file_with_mime(&p, |ext| if ext == "simx" { Some("application/x-simx".parse().unwrap()) } else { rustful::file::ext_to_mime(ext) }),
        ),
        FileApi::NotFoundMsg => {
            let r = resp.send_file_with_mime(&p, rustful::file::ext_to_mime);
            let r = r.or_else(|e| e.send_not_found("no such file"));
            file_api("file-nf", r)
        }
        FileApi::Ignore => {
            let r = resp.send_file_with_mime(&p, rustful::file::ext_to_mime).or_else(|e| e.ignore_send_error());
            if let Err((e, mut response)) = r {
                response.set_status(StatusCode::ServiceUnavailable);
                log(Ev::Api { step: -1, what: "file-ign", ok: false, n: 0, err: format!("open:{:?}", e.kind()) });
                response.send("cannot open");
            } else {
                log(Ev::Api { step: -1, what: "file-ign", ok: true, n: 0, err: String::new() });
            }
        }
        FileApi::Recover => {
            let r = resp.try_send(&*p);
            match r {
                Ok(()) => log(Ev::Api { step: -1, what: "file", ok: true, n: 0, err: String::new() }),
                Err(e) => match e.recover_response() {
                    Ok(mut r) => {
                        log(Ev::Api { step: -1, what: "file", ok: false, n: 0, err: "open:".into() });
                        r.set_status(StatusCode::Gone);
                        r.send("recovered");
                    }
                    Err(e) => file_api("file", Err(e)),
                },
            }
        }
        FileApi::FileObj => match File::open(&p) {
            Ok(f) => file_api("file", resp.try_send(f)),
            Err(e) => {
                log(Ev::Api { step: -1, what: "open", ok: false, n: 0, err: format!("{:?}", e.kind()) });
                resp.send(e)
            }
        },
    }
}

#[allow(dead_code)]
fn unused(h: &Headers) -> Option<String> {
    header_str(h, "x")
}
