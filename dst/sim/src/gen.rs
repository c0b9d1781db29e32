//! Scenario generation: everything that is decided before a run starts follows from
//! (profile, seed).
use crate::core::Rng;
use simproto::*;

/// What a profile emphasises. Probabilities are percentages.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub conns: (u64, u64),
    pub reqs: (u64, u64),
    pub threads: (u64, u64),
    pub threads_none: u64,
    pub start_err: u64,
    pub keep_alive: u64,
    pub small_timeout: u64,
    pub congest: u64,
    pub https: u64,
    /// weights: Bare, Default, TreeOpt, OrElseStatus, MethodTree, Content, TreeOrElse, Boxed, Arced,
    /// TwoTrees, StatusTree, Mount, TreePlain, TreeInTree
    pub kinds: [u64; 17],
    pub routes: (u64, u64),
    pub hyper: u64,
    pub miss: u64,
    pub cf: u64,
    pub cf_abort: u64,
    pub cf_panic: u64,
    pub cf_read: u64,
    pub rf: u64,
    pub rf_act: u64,
    pub rf_panic: u64,
    pub op_panic: u64,
    /// weights: Drop, Send, Opt, Res, IoErr, Chunked, Raw, File, Served
    pub respond: [u64; 9],
    pub file_fault: u64,
    pub body: u64,
    pub chunked_body: u64,
    pub unread: u64,
    pub smuggle: u64,
    pub form: u64,
    pub multipart: u64,
    pub big: u64,
    pub bad: u64,
    pub special: u64,
    pub http10: u64,
    pub head: u64,
    /// weights of the client patterns: sequential, pipelined, partial, truncated, early close,
    /// slow reader, idle, abandoned
    pub pattern: [u64; 8],
    pub trunc_reset: u64,
    pub conn_fault: u64,
    /// filters that add more than a buffer holds, to connections that break
    pub flood: u64,
    pub accept_fault: u64,
    pub jumps: u64,
    pub sleep: u64,
    pub slow_net: u64,
    pub preempt: u64,
    pub query: u64,
    pub close_hdr: u64,
    pub echo: u64,
}

impl Knobs {
    fn base() -> Knobs {
        Knobs {
            conns: (1, 4),
            reqs: (1, 4),
            threads: (1, 5),
            threads_none: 10,
            start_err: 0,
            keep_alive: 80,
            small_timeout: 30,
            congest: 35,
            https: 12,
            kinds: [10, 36, 8, 8, 6, 6, 8, 5, 5, 5, 4, 4, 3, 2, 2, 3, 2],
            routes: (1, 7),
            hyper: 30,
            miss: 15,
            cf: 40,
            cf_abort: 8,
            cf_panic: 2,
            cf_read: 8,
            rf: 45,
            rf_act: 8,
            rf_panic: 2,
            op_panic: 4,
            respond: [6, 28, 5, 5, 4, 26, 9, 10, 5],
            file_fault: 25,
            body: 40,
            chunked_body: 45,
            unread: 20,
            smuggle: 15,
            form: 12,
            multipart: 10,
            big: 8,
            bad: 4,
            special: 6,
            http10: 5,
            head: 4,
            pattern: [34, 22, 12, 8, 6, 8, 7, 3],
            trunc_reset: 40,
            conn_fault: 10,
            flood: 1,
            accept_fault: 6,
            jumps: 10,
            sleep: 35,
            slow_net: 30,
            preempt: 60,
            query: 25,
            close_hdr: 5,
            echo: 10,
        }
    }
    pub fn profile(p: &str) -> Knobs {
        let mut k = Knobs::base();
        match p {
            // response framing
            "C01" => {
                k.pattern = [20, 40, 10, 8, 8, 10, 4, 0];
                k.reqs = (2, 6);
                k.flood = 8;
                k.rf_act = 15;
                k.op_panic = 6;
            }
            // dispatch
            "C02" => {
                k.routes = (3, 12);
                k.miss = 25;
                k.query = 50;
                k.conns = (2, 6);
                k.conn_fault = 3;
                k.respond = [10, 60, 5, 5, 2, 16, 1, 1, 0];
                k.preempt = 90;
                k.special = 10;
            }
            // exactly once
            "C03" => {
                k.pattern = [10, 30, 15, 25, 12, 2, 6, 0];
                k.reqs = (2, 6);
                k.bad = 6;
            }
            // bodies
            "C04" => {
                k.body = 90;
                k.big = 20;
                k.multipart = 2;
                k.unread = 10;
                k.form = 20;
                k.echo = 25;
                k.cf_read = 20;
                k.pattern = [20, 25, 25, 20, 3, 4, 3, 0];
                k.slow_net = 60;
            }
            "C05" => {
                k.body = 95;
                k.multipart = 85;
                k.big = 15;
                k.unread = 5;
                k.pattern = [25, 20, 25, 22, 3, 3, 2, 0];
                k.slow_net = 60;
            }
            "C06" => {
                k.body = 85;
                k.unread = 70;
                k.smuggle = 70;
                k.reqs = (2, 5);
                k.pattern = [30, 40, 20, 4, 2, 2, 2, 0];
                k.conn_fault = 3;
                k.multipart = 12;
                k.cf_abort = 20;
                k.special = 15;
                k.miss = 30;
                k.close_hdr = 25;
                k.respond = [8, 26, 5, 5, 4, 24, 16, 12, 0];
            }
            "C07" => {
                k.respond = [2, 5, 1, 1, 1, 88, 1, 1, 0];
                k.pattern = [35, 20, 8, 4, 8, 24, 1, 0];
                k.echo = 20;
                k.big = 15;
                k.rf = 50;
                k.rf_act = 4;
            }
            "C08" => {
                k.rf = 85;
                k.rf_act = 2;
                k.respond = [8, 34, 8, 8, 6, 28, 4, 4, 0];
                k.conn_fault = 4;
                k.special = 12;
            }
            "C09" => {
                k.cf = 95;
                k.rf = 80;
                k.cf_abort = 25;
                k.cf_read = 15;
                k.conns = (2, 6);
                k.conn_fault = 3;
                k.respond = [8, 40, 5, 5, 4, 34, 2, 2, 0];
                k.preempt = 90;
            }
            "C10" => {
                k.rf = 100;
                k.rf_act = 70;
                k.rf_panic = 0;
                k.op_panic = 0;
                k.conn_fault = 4;
                k.respond = [6, 36, 4, 4, 4, 44, 1, 1, 0];
            }
            "C11" => {
                k.op_panic = 40;
                k.rf = 60;
                k.rf_panic = 20;
                k.cf = 60;
                k.cf_panic = 20;
                k.conns = (2, 6);
                k.threads = (1, 4);
                k.conn_fault = 5;
                k.pattern = [35, 30, 10, 8, 6, 5, 6, 0];
            }
            "C12" => {
                k.conns = (3, 8);
                k.threads = (1, 5);
                k.keep_alive = 100;
                k.congest = 90;
                k.sleep = 70;
                k.routes = (1, 3);
                k.cf = 20;
                k.op_panic = 10;
                k.conn_fault = 25;
                k.accept_fault = 15;
                k.bad = 8;
                k.preempt = 90;
                k.big = 2;
                k.http10 = 8;
                k.pattern = [40, 15, 12, 8, 8, 4, 12, 1];
            }
            "C13" => {
                k.pattern = [30, 12, 15, 3, 3, 2, 34, 0];
                k.small_timeout = 70;
                k.keep_alive = 85;
                k.reqs = (1, 5);
                k.slow_net = 60;
                k.sleep = 50;
                k.big = 2;
                k.conn_fault = 4;
                k.jumps = 30;
                k.close_hdr = 15;
            }
            "C14" => {
                k.conns = (3, 8);
                k.threads = (2, 5);
                k.conn_fault = 45;
                k.accept_fault = 45;
                k.op_panic = 25;
                k.bad = 20;
                k.pattern = [18, 12, 10, 20, 15, 8, 7, 10];
                k.big = 4;
            }
            "C15" => {
                k.respond = [1, 4, 1, 1, 1, 1, 1, 90, 12];
                k.file_fault = 45;
                k.reqs = (1, 5);
                k.pattern = [40, 30, 5, 3, 5, 16, 1, 0];
                k.big = 25;
                k.op_panic = 1;
            }
            "C16" => {
                k.respond = [1, 40, 8, 8, 6, 30, 14, 3, 0];
                k.pattern = [35, 20, 5, 2, 16, 22, 0, 0];
                k.conn_fault = 30;
                k.flood = 8;
                k.big = 25;
            }
            "C17" => {
                k.jumps = 70;
                k.sleep = 60;
                k.pattern = [45, 20, 10, 3, 3, 7, 12, 0];
                k.respond = [10, 40, 5, 5, 4, 20, 8, 8, 0];
            }
            "C18" => {
                k.bad = 45;
                k.special = 15;
                k.pattern = [25, 30, 15, 20, 5, 3, 2, 0];
                k.conns = (2, 6);
                k.slow_net = 60;
            }
            "C19" => {
                k.miss = 60;
                k.special = 25;
                k.cf = 60;
                k.cf_abort = 30;
                k.kinds = [2, 20, 12, 18, 12, 4, 16, 0, 0, 16, 14, 6, 6, 3, 4, 6, 2];
                k.conn_fault = 3;
            }
            "C20" => {
                k.kinds = [1, 32, 20, 6, 6, 6, 20, 4, 5, 10, 6, 5, 6, 5, 5, 5, 5];
                k.routes = (3, 14);
                k.hyper = 85;
                k.miss = 30;
                k.conns = (1, 3);
                k.reqs = (2, 6);
                k.conn_fault = 2;
                k.respond = [10, 80, 2, 2, 1, 4, 1, 0, 0];
                k.body = 10;
            }
            "C21" => {
                k.respond = [1, 4, 1, 1, 1, 1, 1, 5, 90];
                k.file_fault = 20;
                k.reqs = (1, 6);
                k.query = 90;
                k.pattern = [40, 40, 5, 2, 3, 10, 0, 0];
                k.conn_fault = 4;
                k.op_panic = 1;
            }
            "C22" => {
                k.start_err = 30;
                k.threads_none = 40;
                k.conns = (1, 2);
                k.reqs = (1, 3);
                k.threads = (1, 9);
            }
            _ => {}
        }
        k
    }
}

/// Rare extremes: each of them is in force in a few scenarios.
#[derive(Default, Debug)]
struct Wide {
    filters: bool,
    reqs: bool,
    conns: bool,
    big: bool,
    pieces: bool,
    threads: bool,
    routes: bool,
    query: bool,
    headers: bool,
    time: bool,
    fields: bool,
}

struct Gen {
    w: Wide,
    r: Rng,
    k: Knobs,
    sc: Scenario,
    stuck: usize,
    flood: bool,
    /// the largest piece
    cap: u32,
}

const LONG: &str = "a-segment-that-is-much-longer-than-the-other-ones-but-which-is-just-as-static-as-they-are-and-which-has-to-match-up-to-its-very-last-letter-even-though-that-is-the-only-thing-that-matters-z";
const LITS: &[&str] = &["a", "b", "c", "item", "list", "x", "a b", "\u{e4}\u{f6}", "data.txt", "GET", "A", "Item", "a*b", "a:b", "-", "\u{20ac}", "100%", "a+b", ".", "..", "%41", LONG];
const NAMES: &[&str] = &["id", "name", "rest", "v", "id"];
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE", "CONNECT", "TRACE", "M-SEARCH", "get", "HEAD"];

/// What handlers say about their responses.
const RESPONSE_HEADERS: &[(&str, &str)] = &[
    ("Set-Cookie", "a=b; HttpOnly"),
    ("Set-Cookie", "c=d; Path=/"),
    ("Set-Cookie", "e=; Max-Age=0"),
    ("Location", "/elsewhere?x=y"),
    ("ETag", "\"v1\""),
    ("Cache-Control", "no-store"),
    ("Content-Encoding", "gzip"),
    ("Content-Disposition", "attachment; filename=\"a b.txt\""),
    ("Content-Range", "bytes 0-1/2"),
    ("Accept-Ranges", "bytes"),
    ("Vary", "Accept"),
    ("Vary", "Cookie"),
    ("Allow", "GET, HEAD"),
    ("WWW-Authenticate", "Basic realm=\"sim\""),
    ("Retry-After", "120"),
    ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("Strict-Transport-Security", "max-age=1"),
    ("Upgrade", "h2c"),
    ("Trailer", "X-Trailer"),
    ("Keep-Alive", "timeout=1"),
    ("Link", "</a>; rel=next"),
    ("x-lower-case", "v"),
    ("Warning", "199 - \"x\""),
];

/// What clients and proxies really send, and what a server might be tempted to act upon.
const KNOWN_HEADERS: &[(&str, &str)] = &[
    ("X-Forwarded-For", "203.0.113.7"),
    ("X-Forwarded-For", "203.0.113.7, 10.0.0.1"),
    ("X-Real-IP", "203.0.113.8"),
    ("Forwarded", "for=203.0.113.9;proto=https;host=evil.example"),
    ("X-Forwarded-Host", "evil.example"),
    ("X-Forwarded-Proto", "https"),
    ("X-Forwarded-Port", "444"),
    ("X-HTTP-Method-Override", "DELETE"),
    ("X-Method-Override", "PUT"),
    ("X-Original-URL", "/a"),
    ("X-Rewrite-URL", "/b"),
    ("X-Request-Id", "1"),
    ("Accept", "application/json"),
    ("Accept", "*/*;q=0.1"),
    ("accept-encoding", "gzip, deflate"),
    ("Accept-Encoding", "identity"),
    ("Accept-Charset", "iso-8859-1"),
    ("Accept-Language", "sv, en;q=0.5"),
    ("Accept-Ranges", "none"),
    ("Range", "bytes=0-0"),
    ("Range", "bytes=-5"),
    ("If-Range", "\"x\""),
    ("If-None-Match", "*"),
    ("If-None-Match", "\"x\""),
    ("If-Match", "\"y\""),
    ("If-Modified-Since", "Fri, 31 Dec 2100 23:59:59 GMT"),
    ("If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("Date", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("Cookie", "a=b; c=d"),
    ("Authorization", "Basic dTpw"),
    ("Proxy-Authorization", "Basic dTpw"),
    ("Cache-Control", "no-cache, no-store"),
    ("Pragma", "no-cache"),
    ("User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0)"),
    ("user-agent", "sim"),
    ("Referer", "http://evil.example/?a=b"),
    ("Origin", "null"),
    ("Upgrade", "h2c"),
    ("HTTP2-Settings", "AAMAAABkAARAAAAAAAIAAAAA"),
    ("TE", "trailers"),
    ("Trailer", "X-Trailer"),
    ("Via", "1.0 old"),
    ("Max-Forwards", "0"),
    ("Keep-Alive", "timeout=1, max=1"),
    ("Proxy-Connection", "close"),
    ("Prefer", "return=minimal"),
    ("Content-Encoding", "gzip"),
    ("Content-MD5", "Q2hlY2sgSW50ZWdyaXR5IQ=="),
    ("Content-Language", "sv"),
    ("Server", "client"),
    ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"),
    ("X-Empty", ""),
    ("From", "x"),
    ("DNT", "1"),
];

const WORDS: &[&str] = &["alpha", "beta", "gamma", "1", "22", "x y", "\u{e5}", "a/b", "%", "=", "&", "+", "", "zz-top", "0", "#", "a?b"];

fn enc(s: &[u8], r: &mut Rng, extra: bool) -> String {
    let mut o = String::new();
    for &b in s {
        let plain = b.is_ascii_alphanumeric() || b == b'-' || b == b'.' || b == b'_';
        if plain && !(extra && r.chance(1, 6)) {
            o.push(b as char);
        } else if r.chance(1, 2) {
            o.push_str(&format!("%{:02X}", b));
        } else {
            o.push_str(&format!("%{:02x}", b));
        }
    }
    o
}

impl Gen {
    fn pct(&mut self, p: u64) -> bool {
        self.r.chance(p, 100)
    }
    fn weighted(&mut self, w: &[u64]) -> usize {
        let sum: u64 = w.iter().sum();
        let mut x = self.r.below(sum.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= v;
        }
        0
    }
    fn size(&mut self) -> u32 {
        if self.w.big && self.r.chance(1, 4) {
            return match self.r.below(40) {
                0 => self.r.range(300_000, 2_200_000) as u32,
                1..=9 => *self.r.pick(&[8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 65_537, 131_072]),
                10..=19 => self.r.range(40_000, 300_000) as u32,
                _ => self.r.range(9000, 100_000) as u32,
            };
        }
        if self.pct(self.k.big) {
            match self.r.below(6) {
                0..=2 => self.r.range(1000, 9000) as u32,
                3 | 4 => self.r.range(4000, 40_000) as u32,
                _ => self.r.range(4090, 4100) as u32,
            }
        } else {
            match self.r.below(8) {
                0 => 0,
                1 => 1,
                _ => self.r.range(1, 70) as u32,
            }
        }
    }
    fn blob(&mut self) -> Blob {
        let n = self.size().min(self.cap);
        let s = self.r.below(1 << 20) as u32;
        match self.r.below(10) {
            0..=1 => Blob::GenBin(s, n),
            2 if n < 80 => Blob::Str("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n0\r\n\r\n".chars().take(n as usize).collect()),
            _ => Blob::Gen(s, n),
        }
    }

    // ------------------------------------------------------------ configuration

    fn cfg(&mut self) {
        let many = self.w.threads && self.r.chance(1, 5);
        let threads = if many || !self.w.threads && self.pct(self.k.threads_none) { None } else { Some(self.r.range(self.k.threads.0, self.k.threads.1) as usize) };
        self.sc.cfg.cpus = self.r.range(1, if self.w.conns { 12 } else { 4 }) as usize;
        if many {
            self.sc.cfg.cpus = self.r.range(5, 100) as usize;
        }
        self.sc.cfg.threads = threads;
        let pool = self.sc.cfg.pool();
        self.sc.cfg.keep_alive = if self.pct(self.k.keep_alive) {
            let t = if self.w.time {
                *self.r.pick(&[60 * SEC, 75 * SEC, 120 * SEC, 300 * SEC, 600 * SEC, 2500 * MS])
            } else if self.pct(self.k.small_timeout) {
                *self.r.pick(&[50 * MS, 200 * MS, SEC, 1500 * MS])
            } else {
                *self.r.pick(&[5 * SEC, 5 * SEC, 2 * SEC, 30 * SEC])
            };
            let free = if self.pct(self.k.congest) { self.r.range(0, pool as u64 + 1) as usize } else { 0 };
            Some((t, free))
        } else {
            None
        };
        self.sc.cfg.https = self.pct(self.k.https);
        self.sc.cfg.server_name = match self.r.below(20) {
            0 => String::new(),
            1 => (0..self.r.range(30, 600)).map(|i| if i % 9 == 8 { ' ' } else { 's' }).collect::<String>() + "/1",
            2 => "sim (x; y) z/1.0".into(),
            3..=5 => format!("sim/{}", self.r.below(10)),
            _ => "rustful".into(),
        };
        self.sc.cfg.content_type = if self.pct(60) { 0 } else { self.r.range(1, 3) as u8 };
        self.sc.cfg.global_kind = self.r.below(9) as u8;
        self.sc.cfg.v6 = self.pct(20);
        self.sc.cfg.port = *self.r.pick(&[80, 8080, 4000]);
        self.sc.cfg.via_build = self.pct(30);
        self.sc.cfg.host = self.r.below(7) as u8;
        if self.sc.cfg.host == 6 && !self.sc.cfg.v6 {
            self.sc.cfg.port = 80;
        } else if self.sc.cfg.host == 5 && self.pct(30) {
            self.sc.cfg.port = *self.r.pick(&[0, 1, 65535, 443]);
        }
        if self.pct(self.k.start_err) {
            let which = self.r.below(5) as u8;
            let e = match which {
                0 => self.r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EAFNOSUPPORT]),
                2 => self.r.pick(&[libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL]),
                3 => self.r.pick(&[libc::EADDRINUSE, libc::EOPNOTSUPP]),
                _ => self.r.pick(&[libc::ENOBUFS, libc::EINVAL]),
            };
            self.sc.cfg.start_err = Some((which, *e));
        }
    }

    fn route_path(&mut self) -> Vec<String> {
        let n = match self.r.below(10) {
            0 => 0,
            1..=3 => 1,
            4..=6 => 2,
            7 | 8 => 3,
            _ if self.w.routes => {
                if self.r.chance(1, 10) {
                    self.r.range(9, 30)
                } else {
                    self.r.range(4, 8)
                }
            }
            _ => 4,
        };
        let mut wild = false;
        (0..n)
            .map(|_| match self.r.below(10) {
                0..=5 => LITS[self.r.below(LITS.len() as u64) as usize % if self.r.chance(3, 4) { 4 } else { LITS.len() }].to_string(),
                6..=8 => {
                    let nm = *self.r.pick(NAMES);
                    if self.r.chance(1, 10) {
                        ":".to_string()
                    } else {
                        format!(":{}", nm)
                    }
                }
                _ => {
                    if wild && self.r.chance(1, 2) {
                        return "a".to_string();
                    }
                    wild = true;
                    format!("*{}", self.r.pick(NAMES))
                }
            })
            .collect()
    }

    fn router(&mut self) {
        let kind = match self.weighted(&self.k.kinds.clone()) {
            0 => RouterKind::Bare,
            1 => RouterKind::Default,
            2 => RouterKind::TreeOpt,
            3 => RouterKind::OrElseStatus,
            4 => RouterKind::MethodTree,
            5 => RouterKind::Content,
            6 => RouterKind::TreeOrElse,
            7 => RouterKind::Boxed,
            8 => RouterKind::Arced,
            9 => RouterKind::TwoTrees,
            10 => RouterKind::StatusTree,
            11 => RouterKind::Mount,
            12 => RouterKind::TreePlain,
            14 => RouterKind::OptMethod,
            15 => RouterKind::MethodOrElse,
            16 => RouterKind::TreeDefault,
            _ => RouterKind::TreeInTree,
        };
        let n = self.r.range(self.k.routes.0, self.k.routes.1);
        let mut routes: Vec<Route> = vec![];
        for i in 0..n {
            let path = if i > 0 && self.r.chance(1, 4) {
                // same structure as an earlier one, maybe extended
                let mut p = self.r.pick(&routes).path.clone();
                if self.r.chance(1, 2) {
                    for s in p.iter_mut() {
                        if s.starts_with(':') {
                            *s = format!(":{}", self.r.pick(NAMES));
                        }
                    }
                }
                if self.r.chance(1, 2) && p.len() < 5 {
                    p.extend(self.route_path().into_iter().take(1));
                }
                p
            } else {
                self.route_path()
            };
            let some = if self.r.chance(2, 3) { 2 } else { METHODS.len() as u64 };
            let method = METHODS[self.r.below(some) as usize].to_string();
            let mut path = path;
            if path.len() > 2 && self.r.chance(1, 20) {
                let i = self.r.below(path.len() as u64 - 2) as usize;
                path[i] = String::new();
            }
            let mut split = self.r.below(path.len() as u64 + 1) as usize;
            let n = path.len();
            for (i, s) in path.iter_mut().enumerate().filter(|s| s.1.is_empty()) {
                // (a slash at the end is not a segment)
                if i + 2 >= n {
                    *s = "a".into();
                } else if split == i + 1 {
                    split = 0;
                }
            }
            let via = match self.r.below(10) {
                0..=3 => BuildVia::Path,
                4 | 5 => BuildVia::Nested,
                6 | 7 => BuildVia::Merge,
                8 => BuildVia::GetPath,
                _ if self.r.chance(1, 3) => BuildVia::ThenMerge,
                _ if self.r.chance(1, 2) => BuildVia::OnRoute,
                _ => BuildVia::Many,
            };
            let second = matches!(kind, RouterKind::TwoTrees | RouterKind::Mount) && self.r.chance(1, 2);
            routes.push(Route { method, path, hid: i as u32 + 1, via, split, second });
        }
        let mut fallbacks = vec![];
        if matches!(kind, RouterKind::OrElseStatus | RouterKind::TreeOrElse | RouterKind::StatusTree | RouterKind::MethodOrElse) {
            for j in 0..self.r.below(5) {
                let s = *self.r.pick(&[404, 405, 405, 404, 500]);
                let i = self.r.below(routes.len() as u64) as usize;
                fallbacks.push((s, 100 + j as u32, i));
            }
        }
        let from_iter = kind == RouterKind::Default && self.pct(20);
        if from_iter {
            for r in &mut routes {
                r.via = BuildVia::Path;
            }
        }
        let mut refuse = vec![];
        if matches!(kind, RouterKind::TreeOpt | RouterKind::OptMethod | RouterKind::MethodOrElse | RouterKind::MethodTree) && self.r.chance(2, 5) {
            let all: Vec<u32> = routes.iter().map(|r| r.hid).chain(fallbacks.iter().map(|f: &(u16, u32, usize)| f.1)).collect();
            for h in all {
                if self.r.chance(1, 5) {
                    refuse.push((h, *self.r.pick(&[0, 403, 404, 405, 409, 410, 500])));
                }
            }
        }
        let mut inner = vec![];
        if matches!(kind, RouterKind::TreeOpt | RouterKind::OptMethod) && self.r.chance(1, 3) {
            for r in &routes {
                if self.r.chance(1, 2) {
                    let n = self.r.range(1, 3);
                    inner.push((r.hid, (0..n).map(|_| self.r.pick(&["a", "b", ":x", "*", "a/b", ":y/b", "*z/c"]).to_string()).collect()));
                }
            }
        }
        let tag_ok = matches!(kind, RouterKind::TreeOpt | RouterKind::OptMethod | RouterKind::TreeOrElse | RouterKind::TreeInTree | RouterKind::MethodOrElse | RouterKind::MethodTree);
        self.sc.router = RouterSpec { hyperlinks: !matches!(kind, RouterKind::TreeInTree | RouterKind::MethodOrElse) && self.pct(self.k.hyper), kind, routes, fallbacks, from_iter, group: self.r.chance(1, 2), tag: tag_ok && self.r.chance(1, 3), refuse, inner };
    }

    fn filters(&mut self) {
        let mut n = 0;
        while n < if self.w.filters { 7 } else { 3 } && self.pct(self.k.cf) {
            n += 1;
        }
        for _ in 0..n {
            let rewrite = if self.pct(15) {
                let a = self.some_path();
                let b = self.some_path();
                let d = |s: String| String::from_utf8(crate::model::pct_decode(s.as_bytes())).unwrap_or("/".into());
                match self.r.below(8) {
                    0 | 1 => Some(("*".into(), d(b))),
                    2 => Some((d(a), "*".into())),
                    _ => Some((d(a), d(b))),
                }
            } else {
                None
            };
            let f = CFilter {
                abort: vec![],
                panic: vec![],
                rewrite,
                set_method: if self.pct(10) { Some((self.r.pick(&METHODS).to_string(), self.r.pick(&METHODS).to_string())) } else { None },
                set_fragment: if self.pct(5) { Some(self.r.pick(&["", "set", "\u{e9} x"]).to_string()) } else { None },
                add_header: self.pct(30),
                set_query: if self.pct(15) { Some((self.r.pick(&["k0", "k1", "extra"]).to_string(), "set".into())) } else { None },
                set_var: if self.pct(8) { Some((self.r.pick(&["id", "name", "v", "extra"]).to_string(), self.r.pick(&["set", "", "\u{e9} x"]).to_string())) } else { None },
                set_addr: if self.pct(4) { Some(self.r.pick(&["203.0.113.7:99", "[2001:db8::7]:0"]).to_string()) } else { None },
                set_http10: self.pct(4),
                drop_header: if self.pct(8) { Some(self.r.pick(&["cookie", "Range", "X-Forwarded-For", "Accept", "User-Agent", "Upgrade"]).to_string()) } else { None },
                read_body: if self.pct(self.k.cf_read) { Some(self.r.range(0, 40) as usize) } else { None },
                read_form: self.k.cf_read > 0 && self.pct(self.k.cf_read / 6 + 1),
                ask_multipart: self.pct(self.k.multipart / 8 + 1),
                sleep: if self.pct(8) { self.r.range(1, 50) * MS } else { 0 },
            };
            self.sc.cfilters.push(f);
        }
        let mut n = 0;
        while n < if self.w.filters { 7 } else { 3 } && self.pct(self.k.rf) {
            n += 1;
        }
        let quiet = self.pct(15);
        for i in 0..n {
            let tf = match self.r.below(9) {
                0 | 1 => Tf::Ident,
                2 => Tf::Upper,
                3 => Tf::Xor(self.r.below(32) as u8),
                4 => Tf::Wrap("<".into(), format!("{}>", i)),
                5 => Tf::Count,
                6 => Tf::Swallow(*self.r.pick(b"abcABC<#")),
                7 => Tf::Dup,
                _ => Tf::Wrap("(".into(), ")".into()),
            };
            let f = RFilter {
                set_status: if self.pct(20) { Some((*self.r.pick(&[200, 404, 500]), *self.r.pick(&[203, 410, 503]))) } else { None },
                header: if self.pct(40) {
                    let n = match self.r.below(10) {
                        0 => self.r.pick(&["Server", "Content-Type", "Content-Type"]).to_string(),
                        1 => self.r.pick(&["Set-Cookie", "X-Op-Header0", "X-Op-Header1", "etag", "Vary", "X-Rf0"]).to_string(),
                        _ => format!("X-Rf{}", i),
                    };
                    Some((n, format!("v/{}", self.r.below(100))))
                } else {
                    None
                },
                unset: if self.pct(6) { Some(self.r.pick(&["Set-Cookie", "X-Op-Header0", "X-Op-Header1", "ETag", "X-Rf0", "Location"]).to_string()) } else { None },
                begin_out: if self.pct(35) { Some(self.filter_out("b", i)) } else { None },
                end_out: if self.pct(40) { Some(self.filter_out("e", i)) } else { None },
                end_count: self.pct(25),
                held: if self.pct(15) { Some(self.filter_out("h", i)) } else { None },
                tf,
                begin_act: vec![],
                end_act: vec![],
                write_act: vec![],
                as_string: self.pct(50),
            };
            let mut f = f;
            if quiet {
                // they only see the status and the headers of responses without content
                f.begin_out = None;
                f.end_out = None;
                f.end_count = false;
                f.held = None;
                if matches!(f.tf, Tf::Wrap(..) | Tf::Count) {
                    f.tf = Tf::Upper;
                }
            }
            self.sc.rfilters.push(f);
        }
        if !self.sc.rfilters.is_empty() && self.pct(self.k.flood) {
            let i = self.r.below(self.sc.rfilters.len() as u64) as usize;
            let n = self.r.range(4_000, 30_000) as usize;
            let text: String = "[flood]".chars().cycle().take(n).collect();
            let f = &mut self.sc.rfilters[i];
            match self.r.below(3) {
                0 => f.begin_out = Some(text),
                1 => f.end_out = Some(text),
                _ => f.held = Some(text),
            }
            self.flood = true;
        }
    }

    /// Text with characters of several bytes at every offset.
    fn uni(&mut self) -> String {
        let n = *self.r.pick(&[3, 10, 20, 40, 70, 140, 300, 700]);
        let n = self.r.range(1, n) as usize;
        let mut s = "x".repeat(self.r.below(4) as usize);
        let one = self.r.pick(&['\u{e4}', '\u{20ac}', '\u{1f600}', '\u{0}']).clone();
        while s.len() < n {
            s.push(if one == '\u{0}' { *self.r.pick(&['\u{e4}', '\u{20ac}', '\u{1f600}', 'y', '\u{301}', '\u{202e}']) } else { one });
        }
        s
    }

    /// What a filter adds.
    fn filter_out(&mut self, k: &str, i: usize) -> String {
        let n = if self.w.filters && self.r.chance(1, 12) { self.r.range(100, 20_000) as usize } else { 0 };
        format!("[{}{}{}]", k, i, "abcdefg".chars().cycle().take(n).collect::<String>())
    }

    // ------------------------------------------------------------ requests

    /// A raw (percent encoded) request path.
    fn some_path(&mut self) -> String {
        if self.sc.router.routes.is_empty() || self.r.chance(1, 12) {
            let n = self.r.below(4);
            let mut p = String::new();
            for _ in 0..n {
                p.push('/');
                p.push_str(self.r.pick(&["a", "b", "q", "zz", "item"]));
            }
            return if p.is_empty() { "/".into() } else { p };
        }
        let route = self.r.pick(&self.sc.router.routes).clone();
        let mut segs: Vec<String> = vec![];
        let fancy = self.pct(25);
        if self.sc.router.kind == RouterKind::Mount && route.second != self.r.chance(1, 10) {
            segs.push(MOUNT.to_string());
            match self.r.below(16) {
                0 => segs.push(REFUSE.to_string()),
                1 => segs.push(GONE.to_string()),
                _ => {}
            }
        }
        let route = route.path;
        // (the time to match a path grows with a power of the number of wildcards)
        let long = self.w.routes && self.r.chance(1, 8) && self.sc.router.routes.iter().all(|r| r.path.iter().filter(|s| s.starts_with('*')).count() < 2);
        for s in &route {
            if s.starts_with(':') {
                let w: &str = *self.r.pick(&["a", "b", "42", "v 1", "\u{e9}", "x", "item", "+", "%", "why?", "a#b", "?", "k=v&w", ";"]);
                if long {
                    let n = self.r.range(100, 8000) as u32;
                    let b = Blob::Gen(self.r.below(1 << 20) as u32, n).bytes();
                    segs.push(enc(&b, &mut self.r, fancy));
                } else if self.r.chance(1, 14) {
                    let mut b = self.uni().into_bytes();
                    if self.r.chance(1, 5) {
                        b.pop();
                    }
                    segs.push(enc(&b, &mut self.r, false));
                } else {
                    segs.push(enc(w.as_bytes(), &mut self.r, fancy));
                }
            } else if s.starts_with('*') {
                let n = if long { self.r.range(4, 1500) } else { self.r.range(1, 3) };
                for _ in 0..n {
                    let w: &str = *self.r.pick(&["a", "b", "c", "d.e", "f g", "item", "?q", "#"]);
                    segs.push(enc(w.as_bytes(), &mut self.r, fancy));
                }
            } else {
                segs.push(enc(s.as_bytes(), &mut self.r, fancy));
            }
        }
        let mut p = format!("/{}", segs.join("/"));
        match self.r.below(24) {
            0 if p.len() > 1 => p.push('/'),
            1 => p = p.replacen("/", "//", 1),
            2 if segs.len() > 1 => {
                // an encoded slash is a slash
                let i = p.rfind('/').unwrap();
                p.replace_range(i..i + 1, "%2F");
            }
            3 => p.push_str("/\u{0}".replace('\u{0}', "").as_str()),
            4 if segs.len() > 0 => p = p.replacen('/', "/%ff", 1),
            _ => {}
        }
        p
    }

    fn path_for(&mut self) -> String {
        let mut p = self.some_path();
        if self.pct(self.k.miss) {
            match self.r.below(5) {
                0 if self.r.chance(1, 2) => {
                    let u = self.uni();
                    p = format!("/{}", enc(u.as_bytes(), &mut self.r, false));
                }
                0 => p.push_str("/nope"),
                1 => {
                    if self.r.chance(1, 2) {
                        p.push_str(self.r.pick(&["//", "///", "/%2F", "//x", "/./", "/../"]));
                    } else if let Some(i) = p.rfind('/') {
                        p.truncate(i.max(1));
                    }
                }
                2 => p = "/nope".into(),
                3 => p = p.to_ascii_uppercase(),
                _ if self.r.chance(1, 2) => {
                    // encoded twice
                    p = p.replace('%', "%25");
                    if let Some(i) = p.rfind(|c: char| c.is_ascii_alphanumeric()) {
                        let c = p.as_bytes()[i];
                        p.replace_range(i..i + 1, &format!("%25{:02x}", c));
                    }
                }
                _ => p.push_str("x"),
            }
        }
        p
    }

    fn query(&mut self) -> String {
        let many = self.w.query && self.r.chance(1, 25);
        let n = if many { self.r.range(200, 1500) } else if self.w.query { self.r.range(2, 40) } else { self.r.below(4) };
        let mut v = vec![];
        let mut len = 0;
        for i in 0..n {
            len += v.last().map_or(0, |x: &String| x.len());
            if len > 100_000 {
                break;
            }
            let numbered = format!("n{}", i);
            let k = if self.w.query && self.r.chance(1, 2) { &numbered } else { *self.r.pick(&["k0", "k1", "k2", "a b", "\u{e4}", ""]) };
            let u = self.uni();
            let w = if self.r.chance(1, 20) { &u[..] } else { *self.r.pick(WORDS) };
            let e = |s: &str, r: &mut Rng| if r.chance(1, 3) && s.contains(' ') { s.replace(' ', "+") } else { enc(s.as_bytes(), r, false) };
            let k = e(k, &mut self.r);
            if self.w.query {
                let x = match self.r.below(8) {
                    // not encodings, or not text
                    0 => self.r.pick(&["%", "%4", "%zz", "a%2", "%%41", "%e4%f6", "%00%ff", "%C3%A4%", "%2541", "%u0041"]).to_string(),
                    1 => self.r.pick(&["?", "/path?x", "a?b", "a;b", "a:b@c", "~*'()!$,", "[x]", "%2B%26%3D%23", "%3F", "%3f%2f"]).to_string(),
                    2 => Blob::Gen(self.r.below(1 << 20) as u32, self.r.range(50, 600) as u32).bytes().iter().map(|b| *b as char).collect(),
                    3 => String::new(),
                    _ => e(w, &mut self.r),
                };
                v.push(match self.r.below(10) {
                    0 => x,
                    1 => format!("{}=", k),
                    2 => format!("={}", x),
                    3 => "=".to_string(),
                    4 => format!("{}={}&&", k, x),
                    _ => format!("{}={}", k, x),
                });
                continue;
            }
            match self.r.below(8) {
                0 => v.push(k),
                1 => v.push(format!("{}={}={}", k, e(w, &mut self.r), "tail")),
                _ => v.push(format!("{}={}", k, e(w, &mut self.r))),
            }
        }
        v.join("&")
    }

    fn smuggle(&mut self, n: u32) -> Blob {
        let m = *self.r.pick(&["GET", "POST", "DELETE"]);
        let p = self.some_path();
        let one = format!("{} {} HTTP/1.1\r\nHost: sim.example\r\nX-Op: 0\r\nX-Token: SMUGGLED\r\n\r\n", m, p);
        let mut s = String::new();
        if self.r.chance(1, 3) {
            s.push_str("\r\n");
        }
        while s.len() < n as usize || s.is_empty() {
            s.push_str(&one);
        }
        Blob::Str(s)
    }

    fn field_name(&mut self, k: char, i: u64) -> String {
        if self.r.chance(1, 4) {
            if self.r.chance(1, 6) {
                return self.uni();
            }
            self.r.pick(&["a b", "\u{e5}", "same", "same", "", "x[]", "x[0].y", "k=v&w", "UPPER", "a/b", "100%25", "+"]).to_string()
        } else {
            format!("{}{}", k, i)
        }
    }

    fn multipart(&mut self, boundary: &str) -> Blob {
        let many = self.w.fields && self.r.chance(1, 20);
        let n = if many { self.r.range(60, 320) } else if self.w.fields { self.r.range(3, 14) } else { self.r.below(4) };
        let mut s: Vec<u8> = vec![];
        for i in 0..n {
            s.extend_from_slice(format!("--{}\r\n", boundary).as_bytes());
            let file = self.r.chance(1, 2);
            if file {
                let name = if self.r.chance(1, 3) { self.r.pick(&["the file.tar.gz", "\u{e4}\u{f6}.bin", "..\\up.bin", "/etc/x", ".hidden", "file", "", "a'b,c", "UPPER.TXT"]).to_string() } else { format!("file{}.bin", i) };
                let fname = self.field_name('f', i);
                s.extend_from_slice(format!("Content-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\n", fname, name).as_bytes());
                match self.r.below(8) {
                    0 => s.extend_from_slice(b"content-type: image/png\r\n"),
                    1 => s.extend_from_slice(b"Content-Type: text/html; charset=utf-8\r\n"),
                    2 => s.extend_from_slice(b"Content-Type: text/plain\r\nX-More: of them\r\n"),
                    3 => {}
                    _ => s.extend_from_slice(b"Content-Type: application/octet-stream\r\n"),
                }
            } else {
                let fname = self.field_name('t', i);
                if self.r.chance(1, 8) {
                    s.extend_from_slice(b"Content-Type: text/plain\r\n");
                }
                s.extend_from_slice(format!("Content-Disposition: form-data; name=\"{}\"\r\n", fname).as_bytes());
            }
            s.extend_from_slice(b"\r\n");
            let d = match self.r.below(6) {
                0 => b"\r\n--".to_vec(),
                1 => format!("line\r\n--{}", &boundary[..boundary.len() - 1]).into_bytes(),
                2 => self.smuggle(1).bytes(),
                3 if many => vec![],
                _ => {
                    let l = if many { self.r.below(40) as u32 } else { self.size() };
                    let seed = self.r.below(1 << 20) as u32;
                    if file && self.r.chance(1, 2) {
                        Blob::GenBin(seed, l).bytes()
                    } else {
                        Blob::Gen(seed, l).bytes()
                    }
                }
            };
            let inside = format!("--{}", boundary);
            let d = if crate::http::find(&d, inside.as_bytes()).is_some() { b"it would have ended".to_vec() } else { d };
            s.extend_from_slice(&d);
            s.extend_from_slice(b"\r\n");
        }
        s.extend_from_slice(format!("--{}--\r\n", boundary).as_bytes());
        if self.r.chance(1, 10) {
            // cut off, but in a body that ends as it should
            let n = match self.r.below(3) {
                0 => (s.len() as u64).saturating_sub(self.r.range(2, 9)),
                1 => 0,
                _ => self.r.below(s.len() as u64),
            };
            s.truncate(n as usize);
        }
        match String::from_utf8(s) {
            Ok(s) => Blob::Str(s),
            Err(e) => Blob::Bin(e.into_bytes()),
        }
    }

    fn bad(&mut self, token: &str) -> Blob {
        let head = |first: &str, more: &str| format!("{}\r\nHost: sim.example\r\nX-Op: 9999\r\nX-Token: {}\r\n{}\r\n", first, token, more);
        let p = self.some_path();
        let s = match self.r.below(13) {
            0 => "\u{1}\u{2}garbage that is not http\r\n\r\n".to_string(),
            1 => head(&format!("GET {} HTTP/9.9", p), ""),
            2 => head(&format!("GET {} HTTP/1.1", p), "no colon here\r\n"),
            3 => head(&format!("GET {}", p), ""),
            4 => head(&format!("GET  {} HTTP/1.1", p), ""),
            5 => {
                let more: String = (0..110).map(|i| format!("X-H{}: {}\r\n", i, i)).collect();
                head(&format!("GET {} HTTP/1.1", p), &more)
            }
            6 => head("GET http:// HTTP/1.1", ""),
            7 => head(&format!("POST {} HTTP/1.1", p), "Content-Length: abc\r\n"),
            8 => head(&format!("GET {} HTTP/1.1", p), "X-Bad\u{0}Name: 1\r\n"),
            9 => {
                let n = self.r.range(550_000, 600_000) as usize;
                format!("GET {} HTTP/1.1\r\nX-Op: 9999\r\nX-Token: {}\r\nX-Long: {}", p, token, "y".repeat(n))
            }
            10 => head("GET http://[::1 HTTP/1.1", ""),
            11 => "GET".to_string() + &" ".repeat(self.r.range(1, 5) as usize) + "\r\n\r\n",
            _ => head(&format!("POST {} HTTP/1.1", p), "Content-Length: -5\r\n"),
        };
        Blob::Str(s)
    }

    /// A file that another operation sends, too.
    fn old_file(&mut self) -> Option<u32> {
        let all: Vec<u32> = (0..self.sc.files.len() as u32).filter(|&i| self.sc.files[i as usize].resize.is_none()).collect();
        let replaced: Vec<u32> = all.iter().cloned().filter(|&i| self.sc.files[i as usize].replaced.is_some()).collect();
        if !replaced.is_empty() && self.r.chance(1, 2) {
            Some(*self.r.pick(&replaced))
        } else if !all.is_empty() && self.r.chance(1, 2) {
            Some(*self.r.pick(&all))
        } else {
            None
        }
    }

    fn some_file(&mut self) -> u32 {
        match self.old_file() {
            Some(i) => i,
            None => self.new_file(),
        }
    }

    fn new_file(&mut self) -> u32 {
        let i = self.sc.files.len() as u32;
        let other = format!(".{}", if self.r.chance(1, 2) { *self.r.pick(&["js", "pdf", "xml", "zip", "mp3", "gif", "jpg", "svg", "ico", "css", "csv", "htm", "mp4", "webm", "xyz", "wrl", "eml"]) } else { self.r.pick(crate::model::mimes()).0 });
        let ext = *self.r.pick(&[".txt", ".html", ".png", ".simx", "", ".unknownext", ".json", &other, &other, &other, ".tar.zip", ".", ".txt.d", " \u{e4}.css"]);
        let n = if self.r.chance(1, 3) { self.r.range(8000, 30_000) as u32 } else { self.size() };
        let mut f = FileSpec {
            path: if self.r.chance(1, 20) { format!("dir.zip/d{}/{}{}", i, if ext.len() < 2 { "x" } else { "" }, ext) } else { format!("dir/file{}{}", i, ext) },
            data: Blob::GenBin(self.r.below(1 << 20) as u32, n),
            exists: true,
            open_err: 0,
            stat_err: 0,
            read_err: None,
            resize: None,
            max_read: 0,
            eintr: false,
            replaced: None,
            new_len: None,
            huge: None,
        };
        if self.pct(self.k.file_fault) {
            match self.r.below(9) {
                8 => f.huge = Some(n as u64 + (1 << self.r.range(16, 46) | self.r.below(1 << 15))),
                0 => f.exists = false,
                1 => f.open_err = *self.r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::ENOTDIR, libc::ELOOP]),
                2 => f.stat_err = libc::EIO,
                3 => f.read_err = Some((self.r.below(n as u64 + 1), libc::EIO)),
                4 => f.resize = Some((self.r.below(n as u64 + 1), self.r.below(n as u64 + 1))),
                5 => f.resize = Some((self.r.below(n as u64 / 2 + 1), n as u64 + self.r.range(1, 3000))),
                6 => f.max_read = self.r.range(1, 700) as u32,
                _ => f.eintr = true,
            }
        }
        if f.resize.is_none() && f.huge.is_none() && self.r.chance(1, 6) {
            f.replaced = Some(self.r.range(0, 3) as u32);
            if f.read_err.is_none() && self.r.chance(1, 2) {
                f.new_len = Some(self.r.below(n as u64 * 2 + 2) as u32);
            }
        }
        self.sc.files.push(f);
        i
    }

    /// What a client asks for instead of (or for) a file, percent encoded.
    fn file_name(&mut self, f: &str) -> String {
        let dir = f.split('/').next().unwrap_or("");
        let mut n: Vec<u8> = match self.r.below(28) {
            0..=4 => f.to_string(),
            5 => format!("./{}", f),
            6 => f.replace('/', "//"),
            7 => f.replace('/', "/./"),
            8 => format!("../{}", f),
            9 => format!("{}/../../etc/passwd", dir),
            10 => "/etc/passwd".into(),
            11 => format!("/simfs/{}", f),
            12 => format!("{}/../{}", dir, f),
            13 => self.r.pick(&["..", "../..", "./..", "../", "..//.", "a/.."]).to_string(),
            14 => self.r.pick(&["...", "..a/b", "a../b", ".../...", "a..b", "..\\..\\x", "%2e%2e/x", "~/x", "~root", "C:/x", "c:\\x"]).to_string(),
            15 => format!("{}/", f),
            16 => format!("{}/.", f),
            17 => self.r.pick(&["", ".", "./", "./.", dir]).to_string(),
            18 => format!("{}/{}", f, self.r.pick(&["x", "..", "."])),
            19 => format!("{}\u{0}{}", f, self.r.pick(&["", ".png", "/../x"])),
            20 => format!("{}/..", f),
            21 => format!("//{}", f),
            22 => "nothing/here.txt".into(),
            23 => format!("./{}/.{}", dir, "./.."),
            25 => {
                let n = self.r.range(10, 300) as usize;
                let m = self.r.below(3);
                let s: &str = *self.r.pick(&["./", "/", ".//", "x/../"]);
                let up = if m == 1 { self.r.below(n as u64) as usize } else { n };
                let mut p = s.repeat(up);
                if m == 1 {
                    p.push_str("../");
                    p.push_str(&s.repeat(n - up));
                }
                // (it would be an absolute path otherwise)
                let p = if s == "/" { format!("{}/.{}", dir, p) } else { p };
                if s == "/" { p + "/" + f.splitn(2, '/').nth(1).unwrap_or("") } else { p + f }
            }
            24 => format!("{}/x/y/z/../../../../../../../../etc/shadow", dir),
            _ => f.to_uppercase(),
        }
        .into_bytes();
        if self.r.chance(1, 20) {
            let i = self.r.below(n.len() as u64 + 1) as usize;
            n.insert(i, 0xff);
        }
        let mode = self.r.below(3);
        let mut o = String::new();
        for &b in &n {
            let plain = b.is_ascii_alphanumeric() || (mode < 2 && (b == b'/' || b == b'.')) || (mode == 0 && b"~:-_".contains(&b));
            if plain && !(mode == 1 && self.r.chance(1, 8)) {
                o.push(b as char);
            } else {
                o.push_str(&format!("%{:02x}", b));
            }
        }
        o
    }

    fn pieces(&mut self, raw: bool, simple: bool, with_body: bool) -> Vec<Piece> {
        let n = if self.w.pieces && self.r.chance(1, 3) { if self.r.chance(1, 12) { self.r.range(100, 300) } else { self.r.range(10, 60) } } else { self.r.below(6) };
        let mut v = vec![];
        self.cap = if n > 60 { 3000 } else { u32::MAX };
        for _ in 0..n {
            let k = if simple { *self.r.pick(&[0, 1, 2, 3, 4, 5]) } else { self.r.below(10) };
            v.push(match k {
                0 => Piece::Send(self.blob()),
                1 | 9 => Piece::TrySend(self.blob()),
                2 => Piece::Write(self.blob()),
                3 => Piece::WriteAll(self.blob()),
                4 => Piece::Flush,
                5 => {
                    if self.pct(self.k.sleep) {
                        Piece::Sleep(self.r.range(1, 400) * MS)
                    } else {
                        Piece::Flush
                    }
                }
                6 if !raw => Piece::Fmt(self.r.pick(&["n", "count", "\u{e4}"]).to_string(), self.r.below(100_000) as u32),
                6 => Piece::Fmt("n".into(), self.r.below(100) as u32),
                7 => Piece::Copy({
                    let b = self.blob();
                    if b.len() == 0 {
                        Blob::Str("copied".into())
                    } else {
                        b
                    }
                }),
                _ => {
                    let m = self.r.range(1, 3);
                    Piece::Buffered(*self.r.pick(&[1, 8, 64, 1024]), (0..m).map(|_| self.blob()).collect())
                }
            });
        }
        if with_body && !raw && !simple && self.pct(self.k.echo * 3) {
            let m = self.r.range(1, 4);
            for _ in 0..m {
                v.push(Piece::Echo(*self.r.pick(&[1, 7, 64, 5000])));
            }
        }
        self.cap = u32::MAX;
        v
    }

    /// The operation and the request for a slot.
    fn request(&mut self, c: usize, i: usize) -> Req {
        let op_idx = self.sc.ops.len() as u32;
        let token = format!("t{}.{}.{:x}", c, i, self.r.below(1 << 24));
        let mut headers: Vec<(String, String)> = vec![];
        let some = if self.r.chance(3, 4) { 2 } else { METHODS.len() as u64 };
        let mut method = METHODS[self.r.below(some) as usize].to_string();
        let mut path = self.path_for();
        // mostly a method that exists for the path
        if !self.sc.router.routes.is_empty() && self.r.chance(3, 4) {
            let mut tries = 0;
            while tries < 6 {
                let r = self.r.pick(&self.sc.router.routes).method.clone();
                if crate::model::would_handle(&self.sc, &r, &path) {
                    method = r;
                    break;
                }
                tries += 1;
            }
        }
        let mut target = Target::Origin;
        let mut query = if self.pct(self.k.query) { Some(self.query()) } else { None };
        let mut fragment = None;
        if self.pct(self.k.special) {
            match self.r.below(5) {
                0 => {
                    target = Target::Star;
                    method = self.r.pick(&["OPTIONS", "GET"]).to_string();
                    query = None;
                }
                1 => {
                    target = Target::Authority(self.r.pick(&["example.com:443", "sim.example"]).to_string());
                    method = self.r.pick(&["CONNECT", "GET"]).to_string();
                    query = None;
                }
                2 | 3 => {
                    target = Target::Absolute(if self.r.chance(1, 2) {
                        self.r.pick(&["other.example", "other.example:8080", "other.example:80"]).to_string()
                    } else {
                        self.r.pick(&["https://other.example", "https://other.example:443", "https://other.example:80", "HTTP://Other.EXAMPLE:81", "ftp://other.example:2121", "http://user:pw@other.example", "http://user@other.example:8080", "http://[::1]:81", "http://[fe80::1]", "http://127.0.0.1:80", "http://10.1.2.3:8000", "http://other.example:", "unix:"]).to_string()
                    });
                    // the url parser normalises: stay with plain paths
                    let low = path.to_lowercase();
                    if low.split('/').any(|p| p.starts_with('.') || p.starts_with("%2e")) || path.contains('\\') || !path.starts_with('/') {
                        path = "/a/b".into();
                    }
                    if target == Target::Absolute("unix:".into()) {
                        if path.starts_with("//") {
                            path = "/a".into();
                        }
                    } else if self.r.chance(1, 8) {
                        path = String::new();
                    }
                    if self.r.chance(1, 3) {
                        fragment = Some(self.r.pick(&["frag", "x?y=z", ""]).to_string());
                    }
                }
                _ => {
                    let long = self.r.range(50, 3000);
                    fragment = Some(match self.r.below(8) {
                        0 => (0..long).map(|i| if i % 10 == 9 { '/' } else { 'f' }).collect(),
                        1 => "%ff%00%C3%A4".to_string(),
                        2 => "a#b#".to_string(),
                        3 => "%23%3F%".to_string(),
                        4 => {
                            let u = self.uni();
                            enc(u.as_bytes(), &mut self.r, false)
                        }
                        _ => self.r.pick(&["", "frag", "a%20b", "x?y=z", "?"]).to_string(),
                    })
                }
            }
        }
        // an absolute or empty path starts with a slash on the wire
        if !path.starts_with('/') && !matches!(target, Target::Absolute(_)) {
            path.insert(0, '/');
        }
        if self.pct(15) {
            headers.push((format!("X-Extra{}", self.r.below(3)), format!("value {}", self.r.below(1000))));
        }
        if self.pct(20) {
            for _ in 0..self.r.range(1, 4) {
                let (k, v) = *self.r.pick(KNOWN_HEADERS);
                headers.push((k.into(), v.into()));
            }
        }
        if self.pct(3) {
            let u = self.uni();
            headers.push(("X-Text".into(), u));
        }
        let mut raw = vec![];
        while raw.len() < 4 && self.pct(5) {
            let n = self.r.range(1, 40);
            let mut v: Vec<u8> = (0..n).map(|_| if self.r.chance(1, 3) { self.r.range(0x80, 0xff) as u8 } else { *self.r.pick(b"abc/;=,. \"\\%") }).collect();
            v.insert(0, 0xe4);
            v.push(b'x');
            let k = match self.r.below(4) {
                0 => "X-Text",
                1 => *self.r.pick(&["User-Agent", "Referer", "Cookie", "Accept", "Authorization", "Range", "Content-Type"]),
                _ => self.r.pick(KNOWN_HEADERS).0,
            };
            raw.push((k.to_string(), Blob::Bin(v)));
        }
        if self.w.headers {
            for i in 0..self.r.below(60) {
                let n = if self.r.chance(1, 12) { self.r.range(100, 3000) } else { self.r.range(0, 30) };
                headers.push((format!("X-Many{}", i), Blob::Gen(i as u32, n as u32).bytes().iter().map(|b| *b as char).collect()));
            }
        }
        if self.pct(5) {
            headers.push(("Host".into(), "my.example:81".into()));
        }
        let no_host = self.pct(3);
        // --- body and how it is read
        let mut body = Body::None;
        let mut read = match self.r.below(6) {
            0 => ReadPlan::End,
            1 => ReadPlan::Bufs(vec![16]),
            _ => ReadPlan::None,
        };
        let mut has_multipart = false;
        if self.pct(self.k.body) && target != Target::Star {
            if method == "GET" && self.r.chance(1, 2) {
                // a body on any method
            }
            let blob;
            let k = self.r.below(100);
            if k < self.k.multipart {
                let long: String = (0..self.r.range(1, 70)).map(|_| *self.r.pick(b"abcdefgXYZ0123456789-_+.") as char).collect();
                let b = if self.w.fields && self.r.chance(2, 3) { &long } else { *self.r.pick(&["XbndX", "----simboundary7", "a", "XbndX", "----simboundary7", "a", "utf-8", "sim.b_0+9"]) };
                blob = self.multipart(b);
                let t = match self.r.below(16) {
                    0 => format!("multipart/form-data; charset=utf-8; boundary={}", b),
                    1 => format!("multipart/form-data; boundary={}; charset=utf-8", b),
                    2 => format!("multipart/form-data; x=y; boundary=\"{}\"", b),
                    3 => format!("Multipart/Form-Data; Boundary={}", b),
                    4 => format!("multipart/form-data;boundary={}", b),
                    5 => match self.r.below(4) {
                        0 => format!("multipart/mixed; boundary={}", b),
                        1 => "multipart/form-data".to_string(),
                        2 => format!("text/plain; boundary={}", b),
                        _ => format!("multipart/form-data; bound={}", b),
                    },
                    _ => format!("multipart/form-data; boundary={}", b),
                };
                headers.push(("Content-Type".into(), t));
                read = if self.r.chance(1, 5) { ReadPlan::MultipartFirst } else { ReadPlan::Multipart };
                has_multipart = true;
            } else if k < self.k.multipart + self.k.form {
                let mut form = self.query();
                if self.w.big {
                    let n = self.size() as usize;
                    while form.len() < n {
                        let value = self.query();
                        let l = self.r.range(1, 3000) as u32;
                        form.push_str(&format!("&k{}={}&{}", self.r.below(30), "x".repeat(l as usize), value));
                    }
                }
                blob = Blob::Str(form);
                read = ReadPlan::Query;
            } else {
                blob = if self.pct(self.k.smuggle) {
                    let n = self.size();
                    self.smuggle(n)
                } else {
                    self.blob()
                };
                read = match self.r.below(5) {
                    0 | 1 => ReadPlan::End,
                    2 => ReadPlan::Partial(blob.len() as u32 + self.r.below(3) as u32),
                    _ => {
                        let n = self.r.range(1, 3);
                        let mut v: Vec<u32> = (0..n).map(|_| *self.r.pick(&[1u32, 3, 16, 200, 4096, 10_000])).collect();
                        if self.r.chance(1, 6) {
                            // reads nothing
                            v.insert(self.r.below(n as u64) as usize, 0);
                        }
                        ReadPlan::Bufs(v)
                    }
                };
                if blob.len() > 3000 {
                    if let ReadPlan::Bufs(ref mut b) = read {
                        b.push(2000);
                    }
                }
            }
            if self.pct(self.k.unread) {
                read = if self.r.chance(2, 3) { ReadPlan::None } else { ReadPlan::Partial(self.r.below(blob.len() as u64 + 1) as u32) };
            }
            body = if self.pct(self.k.chunked_body) {
                let n = self.r.below(4);
                let big = blob.len() > 2000;
                let sizes = (0..n).map(|_| *self.r.pick(if big { &[100u32, 1000, 4096, 333, 2000] } else { &[1u32, 2, 5, 17, 100] })).collect();
                if self.r.chance(1, 10) {
                    // doesn't matter
                    let n = blob.len() as u64;
                    headers.push(("Content-Length".into(), self.r.pick(&[0, 1, n / 2, n, n + 5, n + 1000]).to_string()));
                }
                Body::Chunked(blob, sizes, self.r.below(6) as u8)
            } else {
                Body::Sized(blob)
            };
            if self.r.chance(1, 12) {
                headers.push(("Expect".into(), "100-continue".into()));
            }
        } else if self.r.chance(1, 15) {
            body = Body::Sized(Blob::Str(String::new()));
        }
        let with_body = body != Body::None && !has_multipart;
        if self.pct(3) && !has_multipart {
            read = ReadPlan::Multipart;
        }
        // --- response filters may act on it
        let untagged_possible = self.sc.cfilters.is_empty();
        let nrf = self.sc.rfilters.len();
        // nothing comes out of the filters that doesn't go in
        let quiet = self.sc.rfilters.iter().all(|f| f.begin_out.is_none() && f.end_out.is_none() && !f.end_count && f.held.is_none() && !matches!(f.tf, Tf::Wrap(..) | Tf::Count));
        let mut acted = false;
        let mut sized_abort = false;
        let mut write_acted = false;
        if nrf > 0 && self.pct(self.k.rf_act + self.k.rf_panic) {
            let panics = self.r.below(self.k.rf_act + self.k.rf_panic) < self.k.rf_panic;
            let j = self.r.below(nrf as u64) as usize;
            let act = if panics {
                Act::Panic
            } else if self.r.chance(1, 2) {
                Act::Abort
            } else {
                Act::Silent
            };
            acted = true;
            sized_abort = true;
            match self.r.below(3) {
                0 => self.sc.rfilters[j].begin_act.push((op_idx, act)),
                1 => self.sc.rfilters[j].end_act.push((op_idx, act)),
                _ => {
                    let n = self.r.below(3) as u32;
                    // data of other filters may be aborted as well
                    let keep = self.r.chance(1, 2);
                    self.sc.rfilters[j].write_act.push((op_idx, n, act));
                    for i in 0..if keep { 0 } else { j } {
                        self.sc.rfilters[i].begin_out = None;
                        self.sc.rfilters[i].end_out = None;
                        self.sc.rfilters[i].end_count = false;
                        self.sc.rfilters[i].held = None;
                    }
                    write_acted = true;
                }
            }
        }
        // --- the response
        let mut respond = match self.weighted(&self.k.respond.clone()) {
            0 => Respond::Drop,
            1 => {
                let api = match self.r.below(4) {
                    0 => SendApi::Send,
                    1 => SendApi::TrySend,
                    2 => SendApi::SendData,
                    _ => SendApi::TrySendData,
                };
                Respond::Send(self.blob(), api)
            }
            2 => Respond::Opt(if self.r.chance(1, 2) { Some(self.blob()) } else { None }),
            3 => Respond::Res(if self.r.chance(1, 2) { Ok(self.blob()) } else { Err(self.blob()) }),
            4 => Respond::IoErr(self.r.chance(1, 2), format!("message {}", self.r.below(100))),
            5 => {
                let fin = match self.r.below(6) {
                    0 | 1 => Fin::Drop,
                    2 if self.pct(self.k.op_panic * 3) => Fin::Panic,
                    _ => Fin::End,
                };
                Respond::Chunked(self.pieces(false, write_acted, with_body), fin)
            }
            6 => {
                let fin = match self.r.below(6) {
                    0 | 1 => Fin::Drop,
                    _ => Fin::End,
                };
                Respond::Raw(self.pieces(true, false, false), fin)
            }
            8 => {
                let i = self.new_file();
                if target != Target::Star && !matches!(target, Target::Authority(_)) {
                    let f = self.old_file().unwrap_or(i) as usize;
                    let name = self.file_name(&self.sc.files[f].path.clone());
                    query = Some(match query {
                        Some(ref q) => if self.r.chance(1, 2) { format!("{}&file={}", q, name) } else { format!("file={}&{}", name, q) },
                        _ => format!("file={}", name),
                    });
                }
                Respond::Served(i, self.r.pick(&[FileApi::SendPathBuf, FileApi::TrySendPath, FileApi::WithMime, FileApi::NotFoundMsg]).clone())
            }
            _ => {
                let api = match self.r.below(7) {
                    0 => FileApi::SendPathBuf,
                    1 => FileApi::TrySendPath,
                    2 => FileApi::WithMime,
                    3 => FileApi::NotFoundMsg,
                    4 => FileApi::Ignore,
                    5 => FileApi::FileObj,
                    _ => FileApi::Recover,
                };
                Respond::File(self.some_file(), api)
            }
        };
        let mut status = if self.pct(35) { Some(*self.r.pick(&[200, 201, 202, 203, 206, 301, 302, 307, 400, 401, 403, 404, 405, 409, 429, 451, 500, 501, 503, 418, 299, 399, 499, 599, 600, 999])) } else { None };
        let mut panic = PanicAt::No;
        if self.pct(self.k.op_panic) {
            panic = match self.r.below(4) {
                0 => PanicAt::Start,
                1 => PanicAt::AfterRead,
                2 => PanicAt::BeforeSend,
                _ => PanicAt::AfterSend,
            };
        }
        let mut http10 = false;
        if self.pct(self.k.http10) && !acted && !matches!(respond, Respond::Chunked(..)) && matches!(panic, PanicAt::No | PanicAt::AfterSend) && !matches!(body, Body::Chunked(..)) {
            http10 = true;
            if self.r.chance(1, 2) {
                headers.push(("Connection".into(), "keep-alive".into()));
            }
            headers.retain(|h| h.0 != "Expect");
        }
        if !http10 && quiet && !acted && self.pct(self.k.head) && panic == PanicAt::No {
            method = "HEAD".into();
            respond = Respond::Drop;
            panic = PanicAt::No;
        }
        if method == "HEAD" {
            // see F10
            if http10 || !quiet || acted || panic != PanicAt::No {
                method = "GET".into();
            } else {
                respond = Respond::Drop;
            }
        }
        if quiet && !acted && self.r.chance(1, 30) && panic == PanicAt::No && method != "HEAD" {
            status = Some(*self.r.pick(&[204, 304]));
            respond = if self.r.chance(1, 2) { Respond::Drop } else { Respond::Send(Blob::Str(String::new()), SendApi::TrySend) };
        }
        let _ = (untagged_possible, sized_abort);
        let mut oh = vec![];
        if self.w.headers {
            for i in 0..self.r.below(40) {
                oh.push((format!("X-Op-Many{}", i), format!("m{}", i)));
            }
            if self.r.chance(1, 6) {
                let n = self.r.range(200, 12_000);
                oh.push(("X-Op-Long".into(), (0..n).map(|i| if i % 11 == 10 { ' ' } else { (b'a' + (i % 7) as u8) as char }).collect::<String>() + "."));
            }
        }
        if self.pct(25) {
            oh.push((format!("X-Op-Header{}", self.r.below(2)), format!("o{}", self.r.below(100))));
        }
        if self.pct(12) {
            for _ in 0..self.r.range(1, 4) {
                let (k, v) = *self.r.pick(RESPONSE_HEADERS);
                oh.push((k.into(), v.into()));
            }
        }
        if self.pct(10) {
            oh.push(("Content-Type".into(), "text/sim".into()));
        }
        if self.pct(3) {
            oh.push(("Server".into(), "handler".into()));
        }
        if self.pct(3) && method != "HEAD" && !matches!(status, Some(204) | Some(304)) {
            oh.push(("Content-Length".into(), "7".into()));
        }
        if self.pct(self.k.close_hdr) {
            let v = if http10 || self.r.chance(1, 3) { "close" } else { *self.r.pick(&["close", "Close", "keep-alive", "keep-alive", "keep-alive", "X-Other", "X-Other, close"]) };
            oh.push(("Connection".into(), v.into()));
        }
        if self.pct(self.k.close_hdr) && !http10 {
            headers.push(("Connection".into(), self.r.pick(&["close", "Close", "keep-alive"]).to_string()));
        }
        let op = Op {
            read,
            sleep: if self.pct(self.k.sleep / 2) { self.r.range(1, 900) * MS } else { 0 },
            status,
            headers: oh,
            panic,
            respond,
            drop_ctx_first: self.pct(15),
            handler_storage: self.pct(25),
        };
        self.sc.ops.push(op);
        if !self.sc.cfilters.is_empty() {
            let n = self.sc.cfilters.len() as u64;
            if self.pct(self.k.cf_abort) {
                let s = *self.r.pick(&[400, 401, 403, 404, 429, 503, 200, 301, 405, 500, 202, 599]);
                let j = self.r.below(n) as usize;
                self.sc.cfilters[j].abort.push((op_idx, s));
            } else if self.pct(self.k.cf_panic) && !http10 && method != "HEAD" {
                let j = self.r.below(n) as usize;
                self.sc.cfilters[j].panic.push(op_idx);
            }
        }
        if headers.iter().any(|h: &(String, String)| h.0.eq_ignore_ascii_case("Content-Type")) {
            raw.retain(|h| h.0 != "Content-Type");
        }
        Req { op: op_idx, method, target, path, query, fragment, http10, headers, body, bad: None, token, claim: None, no_host, raw }
    }

    // ------------------------------------------------------------ clients

    fn conn(&mut self, c: usize) {
        let n = self.r.range(self.k.reqs.0, self.k.reqs.1) as usize;
        let mut reqs: Vec<Req> = (0..n).map(|i| self.request(c, i)).collect();
        if self.pct(self.k.bad) {
            let i = self.r.below(n as u64) as usize;
            let t = reqs[i].token.clone();
            reqs[i].bad = Some(self.bad(&t));
        }
        let t_ka = self.sc.cfg.keep_alive.map_or(5 * SEC, |k| k.0);
        let mut spec = ConnSpec {
            start: if self.pct(60) { self.r.below(20 * MS) } else { self.r.below(3 * SEC) },
            port: self.r.range(1024, 65000) as u16,
            v6: self.sc.cfg.v6,
            reqs: vec![],
            steps: vec![],
            lat: 0,
            jitter: 0,
            frag: 0,
            window: 0,
            read_every: 0,
            short_io: self.pct(20),
            eintr: self.pct(15),
            peer_err: false,
            rst_after_rx: None,
            send_err: None,
 send_once: false,
            dup_err: false,
            tls_bad: false,
            sockopt_err: false,
        };
        if self.pct(self.k.slow_net) {
            spec.lat = self.r.range(0, 60) * MS;
            spec.jitter = self.r.range(0, 80) * MS;
            spec.frag = *self.r.pick(&[0, 8, 40, 200, 1000]);
        } else {
            spec.lat = self.r.below(300) * US;
            spec.jitter = self.r.below(200) * US;
            spec.frag = *self.r.pick(&[0, 0, 0, 60]);
        }
        let total: usize = reqs.iter().map(|r| r.encode().0.len() + r.encode().1.len()).sum();
        if spec.frag > 0 && total > 20_000 {
            spec.frag = spec.frag.max((total / 60) as u32);
        }
        if self.flood && self.r.chance(1, 3) {
            spec.send_err = {
            let n = *self.r.pick(&[400, 30_000]);
            spec.send_once = self.r.chance(1, 2);
            Some((self.r.below(n), if spec.send_once { libc::ENOMEM } else { libc::EPIPE }))
            };
        } else if self.pct(self.k.conn_fault) {
            match self.r.below(9) {
                0 => spec.peer_err = true,
                1 | 2 => spec.rst_after_rx = Some(self.r.below(400)),
                3 => spec.send_err = Some((self.r.below(500), *self.r.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ETIMEDOUT]))),
                4 => {
                    let n = *self.r.pick(&[500, 500, 3_000, 30_000, 100_000]);
                    spec.send_once = self.r.chance(1, 2);
                    let e = if spec.send_once { *self.r.pick(&[libc::ENOMEM, libc::ENOBUFS]) } else { *self.r.pick(&[libc::EPIPE, libc::ECONNRESET, libc::ETIMEDOUT]) };
                    spec.send_err = Some((self.r.below(n), e));
                }
                5 => spec.dup_err = true,
                6 if self.sc.cfg.https => spec.tls_bad = true,
                6 | 7 => spec.sockopt_err = true,
                _ => spec.rst_after_rx = Some(self.r.below(60)),
            }
        }
        if reqs.iter().any(|r| matches!(self.sc.ops[r.op as usize].read, ReadPlan::Multipart | ReadPlan::MultipartFirst)) {
            // the multipart library does not retry
            spec.eintr = false;
        }
        let mut st: Vec<Step> = vec![];
        let pat = self.weighted(&self.k.pattern.clone());
        let think = |g: &mut Gen, st: &mut Vec<Step>| {
            if g.pct(40) {
                let d = match g.r.below(6) {
                    0 => t_ka / 2,
                    1 => g.r.range(1, 2000) * MS,
                    _ => g.r.range(1, 100) * MS,
                };
                st.push(Step::Pause(d));
            }
        };
        let len_of = |r: &Req| {
            let (h, b) = r.encode();
            (h.len() as u64, (h.len() + b.len()) as u64)
        };
        match pat {
            0 => {
                for i in 0..n {
                    st.push(Step::Send(i, i + 1));
                    st.push(Step::Wait(i + 1));
                    if i + 1 < n {
                        think(self, &mut st);
                    }
                }
            }
            1 => {
                let cut = if n > 2 && self.r.chance(1, 3) { self.r.range(1, n as u64 - 1) as usize } else { n };
                st.push(Step::Send(0, cut));
                if cut < n {
                    if self.r.chance(1, 2) {
                        st.push(Step::Wait(cut));
                    }
                    think(self, &mut st);
                    st.push(Step::Send(cut, n));
                }
                st.push(Step::Wait(n));
            }
            2 => {
                for i in 0..n {
                    let (h, all) = len_of(&reqs[i]);
                    if self.r.chance(2, 3) {
                        let k = match self.r.below(4) {
                            0 => self.r.below(h),
                            1 => h,
                            2 => h.saturating_sub(self.r.below(4)),
                            _ => self.r.below(all + 1),
                        };
                        st.push(Step::SendPart(i, k as u32));
                        let d = match self.r.below(5) {
                            0 => t_ka + 500 * MS,
                            1 => t_ka.saturating_sub(20 * MS),
                            _ => self.r.range(1, 300) * MS,
                        };
                        st.push(Step::Pause(d));
                        st.push(Step::SendRest(i));
                        st.push(Step::Wait(i + 1));
                    } else {
                        st.push(Step::Send(i, i + 1));
                        st.push(Step::Wait(i + 1));
                    }
                    think(self, &mut st);
                }
            }
            3 => {
                let m = n - 1;
                if m > 0 {
                    st.push(Step::Send(0, m));
                    if self.r.chance(1, 2) {
                        st.push(Step::Wait(m));
                    }
                }
                let (h, all) = len_of(&reqs[m]);
                let mut k = match self.r.below(3) {
                    0 => self.r.below(h + 1),
                    1 => h + self.r.below((all - h).max(1)),
                    _ => all.saturating_sub(1 + self.r.below(5)),
                };
                if self.r.chance(1, 4) && matches!(reqs[m].body, Body::Sized(_)) && reqs[m].bad.is_none() {
                    // much more is announced than will ever be sent
                    let n = all - h;
                    reqs[m].claim = Some(*self.r.pick(&[n + 1, n + 1000, 1 << 31, 1 << 32, 1 << 46, 1 << 62, u64::MAX - 1, u64::MAX]));
                    k = reqs[m].encode().0.len() as u64 + self.r.below(n + 1);
                }
                st.push(Step::SendPart(m, k as u32));
                if self.r.chance(1, 2) {
                    st.push(Step::Pause(self.r.range(1, 500) * MS));
                }
                if self.pct(self.k.trunc_reset) {
                    st.push(if self.r.chance(1, 2) { Step::Reset } else { Step::Close });
                } else {
                    st.push(Step::HalfClose);
                    st.push(Step::WaitClose);
                }
            }
            4 => {
                st.push(Step::Send(0, n));
                if self.r.chance(3, 4) {
                    st.push(Step::Pause(self.r.below(300) * MS));
                }
                st.push(match self.r.below(3) {
                    0 => Step::Reset,
                    1 => Step::Close,
                    _ => Step::HalfClose,
                });
                st.push(Step::WaitClose);
            }
            5 => {
                spec.window = *self.r.pick(&[1, 30, 100, 1000, 5000]);
                spec.window = spec.window.max(if self.w.big { 1000 } else { 30 });
                if self.r.chance(1, 2) {
                    spec.read_every = *self.r.pick(&[MS, 20 * MS]);
                    spec.window = spec.window.max(1000);
                    for i in 0..n {
                        st.push(Step::Send(i, i + 1));
                        st.push(Step::Wait(i + 1));
                    }
                } else {
                    st.push(Step::StopRead);
                    st.push(Step::Send(0, n));
                    st.push(Step::Pause(self.r.range(1, 4000) * MS));
                    if self.r.chance(1, 5) {
                        st.push(if self.r.chance(1, 2) { Step::Reset } else { Step::Close });
                    } else {
                        st.push(Step::StartRead);
                        st.push(Step::Wait(n));
                    }
                }
            }
            6 => {
                // idle connections around the keep alive timeout
                for i in 0..n {
                    st.push(Step::Send(i, i + 1));
                    st.push(Step::Wait(i + 1));
                    if i + 1 < n || self.r.chance(1, 2) {
                        let d = match self.r.below(6) {
                            0 => t_ka,
                            1 => t_ka - t_ka / 50,
                            2 => t_ka + t_ka / 50,
                            3 => t_ka * 2,
                            4 => t_ka / 2,
                            _ => t_ka.saturating_sub(2 * spec.lat),
                        };
                        st.push(Step::Pause(d));
                    } else {
                        st.push(Step::WaitClose);
                    }
                }
            }
            _ => {
                // the client forgets about the connection in the middle of something
                let pool = self.sc.cfg.pool();
                if self.stuck + 1 < pool {
                    self.stuck += 1;
                    if self.r.chance(1, 3) {
                        spec.window = 40;
                        st.push(Step::StopRead);
                        st.push(Step::Send(0, n));
                        st.push(Step::WaitClose);
                    } else {
                        let m = n - 1;
                        if m > 0 {
                            st.push(Step::Send(0, m));
                        }
                        let (h, all) = len_of(&reqs[m]);
                        let k = if self.r.chance(1, 2) { self.r.below(h) } else { self.r.below(all) };
                        st.push(Step::SendPart(m, k as u32));
                        st.push(Step::WaitClose);
                    }
                } else {
                    st.push(Step::Send(0, n));
                    st.push(Step::Pause(self.r.range(1, 3000) * MS));
                    st.push(Step::Close);
                }
            }
        }
        spec.reqs = std::mem::take(&mut reqs);
        spec.steps = st;
        self.sc.conns.push(spec);
    }

    fn probes(&mut self) {
        // a request that certainly reaches a handler
        let mut found = None;
        for r in self.sc.router.routes.clone() {
            let mount = if self.sc.router.kind == RouterKind::Mount && r.second { Some(MOUNT.to_string()) } else { None };
            let segs: Vec<String> = mount
                .iter()
                .chain(&r.path)
                .map(|s| if s.starts_with(':') || s.starts_with('*') { "probe".to_string() } else { enc(s.as_bytes(), &mut Rng::new(1), false) })
                .collect();
            let p = format!("/{}", segs.join("/"));
            if r.method == "HEAD" {
                continue;
            }
            if crate::model::would_handle(&self.sc, &r.method, &p) {
                found = Some((r.method.clone(), p));
                break;
            }
        }
        if self.sc.router.kind == RouterKind::Bare {
            found = Some(("GET".into(), "/probe".into()));
        }
        let (method, path) = match found {
            Some(f) => f,
            None => return,
        };
        for i in 0..self.sc.cfg.pool() {
            let op = self.sc.ops.len() as u32;
            self.sc.ops.push(Op {
                read: ReadPlan::None,
                sleep: 60 * SEC,
                status: None,
                headers: vec![],
                panic: PanicAt::No,
                respond: Respond::Send(Blob::Str("probe".into()), SendApi::TrySend),
                drop_ctx_first: false,
                handler_storage: false,
            });
            let token = format!("probe{}", i);
            let req = Req {
                op,
                method: method.clone(),
                target: Target::Origin,
                path: path.clone(),
                query: None,
                fragment: None,
                http10: false,
                headers: vec![],
                body: Body::None,
                bad: None,
                token,
                claim: None,
                raw: vec![],
                no_host: false,
            };
            let port = 2000 + i as u16;
            self.sc.probes.push(ConnSpec {
                start: i as u64 * 10 * US,
                port,
                v6: self.sc.cfg.v6,
                reqs: vec![req],
                steps: vec![Step::Send(0, 1), Step::Wait(1)],
                lat: 50 * US,
                jitter: 0,
                frag: 0,
                window: 0,
                read_every: 0,
                short_io: false,
                eintr: false,
                peer_err: false,
                rst_after_rx: None,
                send_err: None,
 send_once: false,
                dup_err: false,
                tls_bad: false,
                sockopt_err: false,
            });
        }
    }
}

pub fn scenario(profile: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed ^ profile.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let hash_seed = r.next();
    let mut k = Knobs::profile(profile);
    // a long life: many requests on a connection, or many connections
    let life = if profile == "C22" { 9 } else { r.below(120) };
    let sc = Scenario {
        seed,
        profile: profile.to_string(),
        hash_seed,
        cfg: ServerCfg {
            threads: Some(1),
            cpus: 1,
            keep_alive: None,
            https: false,
            server_name: "rustful".into(),
            content_type: 0,
            global_kind: 0,
            v6: false,
            port: 80,
            via_build: false,
            host: 0,
            start_err: None,
        },
        router: RouterSpec { kind: RouterKind::Bare, hyperlinks: false, routes: vec![], fallbacks: vec![], from_iter: false, group: false, tag: false, refuse: vec![], inner: vec![] },
        cfilters: vec![],
        rfilters: vec![],
        ops: vec![],
        conns: vec![],
        files: vec![],
        clock: ClockSpec { start: 0, jumps: vec![], sys_cost: 0 },
        faults: SysFaults { accept: vec![], spawn: vec![] },
        sched: SchedCfg { preempt: 0, sys_switch: 0, policy: 0 },
        probes: vec![],
        fd_base: 1000,
    };
    let often: &[&str] = match profile {
        "C01" => &["big", "fields"],
        "C02" => &["query", "routes"],
        "C03" => &["routes"],
        "C04" => &["big", "query"],
        "C05" => &["fields", "fields", "big"],
        "C06" | "C07" | "C13" | "C16" | "C17" => &["big", "pieces"],
        "C08" => &["filters", "pieces"],
        "C09" | "C12" => &["reqs"],
        "C10" | "C22" => &["threads", "conns"],
        "C14" | "C15" => &["filters"],
        "C18" | "C20" => &["routes"],
        _ => &[],
    };
    let mut rare = |n: &str| if life < 2 { false } else if often.contains(&n) { r.chance(1, 8) } else { r.chance(1, 25) };
    let w = Wide {
        filters: rare("filters"),
        reqs: rare("reqs"),
        conns: rare("conns"),
        big: rare("big"),
        pieces: rare("pieces"),
        threads: rare("threads"),
        routes: rare("routes"),
        query: rare("query"),
        headers: rare("headers"),
        time: rare("time"),
        fields: rare("fields"),
    };
    if life < 2 {
        k.rf_act = 0;
        k.rf_panic = 0;
        k.cf_abort = k.cf_abort.min(5);
        k.big = 0;
        k.body = k.body.min(25);
        k.head = 0;
        k.special = k.special.min(2);
        k.sleep = 5;
        k.preempt = k.preempt.min(30);
        k.respond[6] = k.respond[6].min(5);
        k.start_err = 0;
        k.threads = (1, 3);
    }
    if life == 0 {
        k.reqs = (100, 260);
        k.conns = (1, 2);
        k.keep_alive = 100;
        k.small_timeout = k.small_timeout.min(20);
        k.congest = k.congest.min(10);
        k.pattern = [40, 40, 10, 0, 0, 10, 0, 0];
        k.bad = 0;
        k.close_hdr = 0;
        k.http10 = 0;
        k.cf_panic = 0;
        k.op_panic = 0;
        k.unread = 0;
        k.smuggle = 0;
        k.conn_fault = 0;
        k.file_fault = 0;
    } else if life == 1 {
        k.conns = (40, 120);
        k.reqs = (1, 2);
    }
    let mut g = Gen { w, r, k, sc, stuck: 0, flood: false, cap: u32::MAX };
    if g.w.filters {
        g.k.cf = g.k.cf.max(85);
        g.k.rf = g.k.rf.max(85);
    }
    if g.w.conns {
        g.k.conns = (8, 18);
        g.k.reqs.1 = g.k.reqs.1.min(2).max(g.k.reqs.0);
    } else if g.w.reqs {
        g.k.reqs = (8, 30);
        g.k.conns.1 = g.k.conns.1.min(3).max(g.k.conns.0);
        g.k.pattern[0] += 30;
        g.k.pattern[1] += 30;
    }
    if g.w.threads {
        g.k.threads = (6, 16);
        if g.r.chance(1, 5) {
            // more than anybody has
            g.k.threads = (17, 130);
            g.k.conns = (1, 4);
        }
    }
    if g.w.routes {
        g.k.routes = (12, 40);
    }
    g.cfg();
    g.router();
    g.filters();
    let n = g.r.range(g.k.conns.0, g.k.conns.1) as usize;
    for c in 0..n {
        g.conn(c);
    }
    // (heads that don't fit into a buffer are known finding F31)
    let sc = &mut g.sc;
    for c in sc.conns.iter_mut().filter(|c| c.send_once) {
        let ops = &sc.ops;
        if c.reqs.iter().any(|r| ops.get(r.op as usize).map_or(false, |o| o.headers.iter().map(|h| h.1.len()).sum::<usize>() > 4_000)) {
            c.send_once = false;
        }
    }
    g.probes();
    g.sc.clock.start = *g.r.pick(&[1_700_000_000, 951_782_399, 4_102_444_799, 1_483_228_790]);
    if g.r.chance(1, 2) {
        g.sc.clock.start = g.r.range(1, 4_102_444_799) as i64;
    }
    g.sc.clock.sys_cost = *g.r.pick(&[1 * US, 5 * US, 30 * US]);
    if g.pct(g.k.jumps) {
        for _ in 0..g.r.range(1, 3) {
            let at = g.r.below(5 * SEC);
            let d = *g.r.pick(&[-3600, 3600, -5, 7, 86_400, -86_400 * 40]);
            g.sc.clock.jumps.push((at, d * SEC as i64));
        }
    }
    if g.pct(g.k.accept_fault) {
        for _ in 0..g.r.range(1, 3) {
            let n = g.r.below(10) as u32;
            let e = *g.r.pick(&[libc::ECONNABORTED, libc::EMFILE, libc::ENOBUFS, libc::EPERM, libc::EINTR]);
            g.sc.faults.accept.push((n, e));
        }
    }
    if g.pct(g.k.preempt) {
        g.sc.sched.preempt = *g.r.pick(&[40, 200, 1000, 5000]);
        g.sc.sched.sys_switch = *g.r.pick(&[0, 30, 100]);
    } else {
        g.sc.sched.sys_switch = *g.r.pick(&[0, 20]);
    }
    g.sc.sched.policy = g.r.below(3) as u8;
    g.sc.fd_base = 1000 + g.r.below(50) as i32;
    g.sc
}

pub const PROFILES: [&str; 23] = [
    "base", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];
