//! A strict HTTP/1.x response parser, written against the RFC and independent of the server.

#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    None,
    Sized(u64),
    Chunked,
    UntilClose,
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub start: usize,
    /// end of the head (after the empty line)
    pub head_end: usize,
    /// end of the message, if complete
    pub end: usize,
    pub complete: bool,
    pub minor: u8,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub framing: Framing,
    /// body as far as it has been received
    pub body: Vec<u8>,
    /// for each piece of body: (position in the stream after which it is available, length of the body then)
    pub marks: Vec<(usize, usize)>,
    pub chunks: Vec<usize>,
}

impl Resp {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0.eq_ignore_ascii_case(name)).map(|h| &h.1[..])
    }
    pub fn count(&self, name: &str) -> usize {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).count()
    }
    pub fn says_close(&self) -> bool {
        self.headers.iter().any(|h| h.0.eq_ignore_ascii_case("connection") && h.1.split(',').any(|t| t.trim().eq_ignore_ascii_case("close")))
    }
    pub fn says_keep_alive(&self) -> bool {
        self.headers.iter().any(|h| h.0.eq_ignore_ascii_case("connection") && h.1.split(',').any(|t| t.trim().eq_ignore_ascii_case("keep-alive")))
    }
}

#[derive(Debug)]
pub enum Parse {
    /// nothing (more) there
    Empty,
    /// the head is incomplete
    Partial,
    Resp(Box<Resp>),
    Bad(String),
}

fn token(s: &[u8]) -> bool {
    !s.is_empty()
        && s.iter().all(|&b| matches!(b, b'!' | b'#' | b'$' | b'%' | b'&' | b'\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~') || b.is_ascii_alphanumeric())
}

/// Where parsing an unfinished response again may lead further: only once everything up to there,
/// or the end of the chunk that begins there, has arrived.
#[derive(Clone, Copy)]
pub enum Wait {
    Until(u64),
    Chunk(usize),
    Forever,
}

impl Wait {
    pub fn of(r: &Resp) -> Wait {
        match r.framing {
            Framing::Sized(n) => Wait::Until(r.head_end as u64 + n),
            Framing::Chunked => Wait::Chunk(r.head_end),
            _ => Wait::Forever,
        }
    }

    /// Is there any use in parsing the response again?
    pub fn over(&mut self, buf: &[u8]) -> bool {
        match *self {
            Wait::Until(n) => buf.len() as u64 >= n,
            Wait::Forever => false,
            Wait::Chunk(ref mut p) => loop {
                let b = &buf[*p..];
                let l = match find(&b[..b.len().min(20)], b"\r\n") {
                    Some(l) => l,
                    // parse() knows whether this can be the beginning of a line
                    None => return !(b.len() < 10 && b.iter().all(|c| c.is_ascii_hexdigit())),
                };
                let n = match std::str::from_utf8(&b[..l]).ok().and_then(|s| usize::from_str_radix(s, 16).ok()) {
                    Some(n) if n > 0 && n < 1 << 40 => n,
                    _ => return true,
                };
                let end = l + 2 + n + 2;
                if b.len() + 1 < end {
                    return false;
                }
                if b.len() < end || &b[end - 2..end] != b"\r\n" {
                    return true;
                }
                *p += end;
            },
        }
    }
}

/// Parses one response that starts at `start`. `eof`: nothing follows.
pub fn parse(buf: &[u8], start: usize, eof: bool) -> Parse {
    let b = &buf[start..];
    if b.is_empty() {
        return Parse::Empty;
    }
    let head_len = match find(b, b"\r\n\r\n") {
        Some(i) => i + 4,
        None => {
            let pre = b"HTTP/1.";
            let n = pre.len().min(b.len());
            if b[..n] != pre[..n] {
                return Parse::Bad(format!("not a status line: {:?}", show(b)));
            }
            return Parse::Partial;
        }
    };
    let head = &b[..head_len - 4];
    let mut lines = split_crlf(head).into_iter();
    let first = lines.next().unwrap_or(b"");
    // HTTP/1.x SP 3DIGIT SP reason
    if first.len() < 12 || &first[..7] != b"HTTP/1." || !(first[7] == b'0' || first[7] == b'1') || first[8] != b' ' || !first[9..12].iter().all(|c| c.is_ascii_digit()) {
        return Parse::Bad(format!("bad status line: {:?}", show(first)));
    }
    if first.len() > 12 && first[12] != b' ' {
        return Parse::Bad(format!("bad status line: {:?}", show(first)));
    }
    let status: u16 = std::str::from_utf8(&first[9..12]).unwrap().parse().unwrap();
    let mut headers = vec![];
    for l in lines {
        let i = match l.iter().position(|&c| c == b':') {
            Some(i) => i,
            None => return Parse::Bad(format!("header line without colon: {:?}", show(l))),
        };
        if !token(&l[..i]) {
            return Parse::Bad(format!("bad header name: {:?}", show(l)));
        }
        if l[i + 1..].iter().any(|&c| c == b'\r' || c == b'\n' || c == 0) {
            return Parse::Bad(format!("bad header value: {:?}", show(l)));
        }
        headers.push((String::from_utf8_lossy(&l[..i]).into_owned(), String::from_utf8_lossy(&l[i + 1..]).trim().to_string()));
    }
    let mut r = Resp {
        start,
        head_end: start + head_len,
        end: start + head_len,
        complete: false,
        minor: first[7] - b'0',
        status,
        headers,
        framing: Framing::None,
        body: vec![],
        marks: vec![],
        chunks: vec![],
    };
    let te: Vec<String> = r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("transfer-encoding")).map(|h| h.1.clone()).collect();
    let cl: Vec<String> = r.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("content-length")).map(|h| h.1.clone()).collect();
    if !te.is_empty() && !cl.is_empty() {
        return Parse::Bad("both Content-Length and Transfer-Encoding".into());
    }
    if cl.len() > 1 {
        return Parse::Bad("several Content-Length fields".into());
    }
    if te.len() > 1 {
        return Parse::Bad("several Transfer-Encoding fields".into());
    }
    let no_body = status < 200 || status == 204 || status == 304;
    let rest = &b[head_len..];
    if no_body {
        r.complete = true;
        return Parse::Resp(Box::new(r));
    }
    if let Some(te) = te.get(0) {
        if !te.trim().eq_ignore_ascii_case("chunked") {
            return Parse::Bad(format!("Transfer-Encoding: {}", te));
        }
        r.framing = Framing::Chunked;
        let mut p = 0;
        loop {
            let l = match find(&rest[p..], b"\r\n") {
                Some(l) => l,
                None => {
                    if !rest[p..].iter().all(|c| c.is_ascii_hexdigit() || *c == b'\r') {
                        return Parse::Bad(format!("bad chunk size: {:?}", show(&rest[p..])));
                    }
                    break;
                }
            };
            let line = &rest[p..p + l];
            let n = match std::str::from_utf8(line).ok().filter(|s| !s.is_empty() && s.len() < 16 && s.bytes().all(|c| c.is_ascii_hexdigit())).and_then(|s| u64::from_str_radix(s, 16).ok()) {
                Some(n) => n as usize,
                None => return Parse::Bad(format!("bad chunk size: {:?}", show(line))),
            };
            p += l + 2;
            if n == 0 {
                let t = &rest[p..];
                if t.len() >= 2 {
                    if &t[..2] != b"\r\n" {
                        return Parse::Bad(format!("bad end of chunks: {:?}", show(t)));
                    }
                    r.complete = true;
                    r.end = r.head_end + p + 2;
                } else if t.len() == 1 && t[0] != b'\r' {
                    return Parse::Bad("bad end of chunks".into());
                }
                break;
            }
            let have = n.min(rest.len() - p);
            r.body.extend_from_slice(&rest[p..p + have]);
            r.marks.push((r.head_end + p + have, r.body.len()));
            r.chunks.push(n);
            p += have;
            if have < n {
                break;
            }
            let t = &rest[p..];
            if t.len() < 2 {
                if t.len() == 1 && t[0] != b'\r' {
                    return Parse::Bad("no CRLF after a chunk".into());
                }
                break;
            }
            if &t[..2] != b"\r\n" {
                return Parse::Bad(format!("no CRLF after a chunk: {:?}", show(t)));
            }
            p += 2;
        }
        if !r.complete {
            r.end = buf.len();
        }
        return Parse::Resp(Box::new(r));
    }
    if let Some(c) = cl.get(0) {
        let n: u64 = match c.parse() {
            Ok(n) if c.bytes().all(|c| c.is_ascii_digit()) => n,
            _ => return Parse::Bad(format!("Content-Length: {}", c)),
        };
        r.framing = Framing::Sized(n);
        let have = (n as usize).min(rest.len());
        r.body = rest[..have].to_vec();
        r.complete = have as u64 == n;
        r.end = r.head_end + have;
        return Parse::Resp(Box::new(r));
    }
    r.framing = Framing::UntilClose;
    r.body = rest.to_vec();
    r.end = buf.len();
    r.complete = eof;
    Parse::Resp(Box::new(r))
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n)
}

fn split_crlf(mut b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    loop {
        match find(b, b"\r\n") {
            Some(i) => {
                v.push(&b[..i]);
                b = &b[i + 2..];
            }
            None => {
                v.push(b);
                return v;
            }
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(120)]).into_owned();
    if b.len() > 120 {
        format!("{}...({} bytes)", s, b.len())
    } else {
        s
    }
}
