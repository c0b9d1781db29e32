//! Types shared by the simulator (`dst`) and the simulated application (`simapp`):
//! the scenario (everything that is decided before a run starts) and the events
//! the application reports while it runs.
use serde::{Deserialize, Serialize};

pub type Ns = u64;
pub const US: Ns = 1_000;
pub const MS: Ns = 1_000_000;
pub const SEC: Ns = 1_000_000_000;

/// Byte strings in scenarios. `Gen` keeps replay files small.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Blob {
    Str(String),
    Bin(Vec<u8>),
    /// Deterministic printable filler: (seed, len)
    Gen(u32, u32),
    /// Deterministic arbitrary bytes: (seed, len)
    GenBin(u32, u32),
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match *self {
            Blob::Str(ref s) => s.clone().into_bytes(),
            Blob::Bin(ref b) => b.clone(),
            Blob::Gen(s, n) => {
                let mut v = Vec::with_capacity(n as usize);
                let mut x = (s as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
                while v.len() < n as usize {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    v.push(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(x >> 20) as usize & 63]);
                }
                v
            }
            Blob::GenBin(s, n) => {
                let mut v = Vec::with_capacity(n as usize);
                let mut x = (s as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xA5B54A32D192ED07;
                while v.len() < n as usize {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    v.push((x >> 20) as u8);
                }
                v
            }
        }
    }
    pub fn len(&self) -> usize {
        match *self {
            Blob::Str(ref s) => s.len(),
            Blob::Bin(ref b) => b.len(),
            Blob::Gen(_, n) | Blob::GenBin(_, n) => n as usize,
        }
    }
    pub fn is_text(&self) -> bool {
        matches!(*self, Blob::Str(_) | Blob::Gen(..))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub seed: u64,
    pub profile: String,
    pub hash_seed: u64,
    pub cfg: ServerCfg,
    pub router: RouterSpec,
    pub cfilters: Vec<CFilter>,
    pub rfilters: Vec<RFilter>,
    pub ops: Vec<Op>,
    pub conns: Vec<ConnSpec>,
    pub files: Vec<FileSpec>,
    pub clock: ClockSpec,
    pub faults: SysFaults,
    pub sched: SchedCfg,
    /// Connections that are opened when everything else is done (at most one for each thread that
    /// is not held by a client): all their requests have to be in handlers at once.
    pub probes: Vec<ConnSpec>,
    pub fd_base: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ServerCfg {
    pub threads: Option<usize>,
    pub cpus: usize,
    pub keep_alive: Option<(Ns, usize)>,
    pub https: bool,
    pub server_name: String,
    /// index into a table of content types
    pub content_type: u8,
    /// 0: none, 1: one value, 2: many values, 3: inserted later
    pub global_kind: u8,
    pub v6: bool,
    pub port: u16,
    pub via_build: bool,
    /// the way the address is given
    #[serde(default)]
    pub host: u8,
    /// what the operating system refuses at the start (0: socket, 1: setsockopt, 2: bind, 3: listen, 4: getsockname)
    #[serde(default)]
    pub start_err: Option<(u8, i32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum RouterKind {
    /// the handler itself
    Bare,
    /// `DefaultRouter<H>`
    Default,
    /// `TreeRouter<Option<Variables<H>>>`
    TreeOpt,
    /// `OrElse<DefaultRouter<H>, StatusRouter<H>>`
    OrElseStatus,
    /// `MethodRouter<TreeRouter<Option<Variables<H>>>>`
    MethodTree,
    /// `DefaultRouter<ContentFactory<..>>`
    Content,
    /// `TreeRouter<OrElse<MethodRouter<Variables<H>>, StatusRouter<Variables<H>>>>`
    TreeOrElse,
    /// `DefaultRouter<Box<Handler>>`
    Boxed,
    /// `DefaultRouter<Arc<H>>`
    Arced,
    /// `OrElse<DefaultRouter<H>, DefaultRouter<H>>`
    TwoTrees,
    /// `OrElse<DefaultRouter<H>, StatusRouter<TreeRouter<Option<Variables<H>>>>>`
    StatusTree,
    /// a router of the application that takes one path segment and hands the rest to one
    /// `DefaultRouter<H>`, and everything else to another
    Mount,
    /// `TreeRouter<Option<H>>`
    TreePlain,
    /// DefaultRouter with a tree of its own for each method of each path
    TreeInTree,
    /// `TreeRouter<MethodRouter<Option<Variables<H>>>>`
    OptMethod,
    /// `TreeRouter<MethodRouter<OrElse<Option<Variables<H>>, StatusRouter<Variables<H>>>>>`;
    /// a route with a fallback for 404 has no primary handler
    MethodOrElse,
    /// `TreeRouter<Variables<H>>`; where there is nothing else there's a default handler
    TreeDefault,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RouterSpec {
    pub kind: RouterKind,
    pub hyperlinks: bool,
    pub routes: Vec<Route>,
    /// (status, handler id, route index) for the routers with a status fallback
    pub fallbacks: Vec<(u16, u32, usize)>,
    /// build with `FromIterator` (DefaultRouter<H> only)
    pub from_iter: bool,
    /// consecutive merged routes with the same prefix are merged as one router
    #[serde(default)]
    pub group: bool,
    /// the routes are built with a context of the application
    #[serde(default)]
    pub tag: bool,
    /// handlers that reject every request, with the status they leave behind (0: the one they found)
    #[serde(default)]
    pub refuse: Vec<(u32, u16)>,
    /// handlers (of the same kinds of routers) that show a tree of their own below them, with its routes
    #[serde(default)]
    pub inner: Vec<(u32, Vec<String>)>,
}

/// The name and the value of the variable by which handlers tell about that context.
pub const TAG: &str = "tag";

/// The path segment that leads to the inner router of `RouterKind::Mount`.
pub const MOUNT: &str = "mount";
/// The next path segments with which it rejects the request, as it is or with a status.
pub const REFUSE: &str = "refuse";
pub const GONE: &str = "gone";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum BuildVia {
    /// `path(p).then().on(m, h)`
    Path,
    /// nested: `path(a)` then `path(b)`
    Nested,
    /// a separate router merged in at a prefix
    Merge,
    /// `get_path` on an existing node (falls back to `path`)
    GetPath,
    /// inside of `many`
    Many,
    /// `path(p).then().merge(..)` with a router for one method
    ThenMerge,
    /// the last segment with `on_route` (trees with one handler per node only)
    OnRoute,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Route {
    pub method: String,
    /// segments: "lit", ":name", "*name"
    pub path: Vec<String>,
    pub hid: u32,
    pub via: BuildVia,
    /// where the path is split for Nested / Merge
    pub split: usize,
    /// belongs to the second tree (TwoTrees, Mount)
    #[serde(default)]
    pub second: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CFilter {
    /// ops for which the filter aborts, with the status
    pub abort: Vec<(u32, u16)>,
    pub panic: Vec<u32>,
    /// rewrite rule on the path: if path == .0 then path = .1, where * is the asterisk form
    pub rewrite: Option<(String, String)>,
    /// the same for the method
    #[serde(default)]
    pub set_method: Option<(String, String)>,
    #[serde(default)]
    pub set_fragment: Option<String>,
    pub add_header: bool,
    pub set_query: Option<(String, String)>,
    /// a path variable
    #[serde(default)]
    pub set_var: Option<(String, String)>,
    /// the address of the client, as a proxy would tell it
    #[serde(default)]
    pub set_addr: Option<String>,
    /// HTTP/1.0
    #[serde(default)]
    pub set_http10: bool,
    #[serde(default)]
    pub drop_header: Option<String>,
    /// bytes of the body that are read (and logged) by the filter
    pub read_body: Option<usize>,
    /// the rest of the body is read as a form
    #[serde(default)]
    pub read_form: bool,
    /// asks if the body is multipart
    #[serde(default)]
    pub ask_multipart: bool,
    pub sleep: Ns,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Tf {
    Ident,
    Upper,
    Xor(u8),
    Wrap(String, String),
    /// appends "#<number of writes so far>" using the request local storage
    Count,
    /// pieces that start with the byte are swallowed (Next(None))
    Swallow(u8),
    Dup,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Act {
    Next,
    Silent,
    Abort,
    Panic,
}

/// The headers that the server takes care of.
pub fn own_header(k: &str) -> bool {
    ["date", "server", "content-type", "connection", "content-length", "transfer-encoding"].iter().any(|o| k.eq_ignore_ascii_case(o))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RFilter {
    pub set_status: Option<(u16, u16)>,
    pub header: Option<(String, String)>,
    /// a header it removes, before it sets its own
    #[serde(default)]
    pub unset: Option<String>,
    pub begin_out: Option<String>,
    pub end_out: Option<String>,
    /// append the number of bytes and writes seen, at the end
    pub end_count: bool,
    /// what it writes when the previous one held its content back
    #[serde(default)]
    pub held: Option<String>,
    pub tf: Tf,
    /// special action at begin / end for some ops
    pub begin_act: Vec<(u32, Act)>,
    pub end_act: Vec<(u32, Act)>,
    /// special action at write number n (0-based) for some ops
    pub write_act: Vec<(u32, u32, Act)>,
    /// return string data instead of bytes when possible
    pub as_string: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub read: ReadPlan,
    pub sleep: Ns,
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub panic: PanicAt,
    pub respond: Respond,
    pub drop_ctx_first: bool,
    pub handler_storage: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum ReadPlan {
    None,
    /// read_to_end
    End,
    /// read calls with these buffer sizes, repeated until eof
    Bufs(Vec<u32>),
    /// exactly one limited read of that many bytes
    Partial(u32),
    Query,
    Multipart,
    /// only a part of the entries is read
    MultipartFirst,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum PanicAt {
    No,
    Start,
    AfterRead,
    BeforeSend,
    AfterSend,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum SendApi {
    Send,
    TrySend,
    SendData,
    TrySendData,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Fin {
    End,
    Drop,
    Panic,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Piece {
    Send(Blob),
    TrySend(Blob),
    Write(Blob),
    WriteAll(Blob),
    Flush,
    Sleep(Ns),
    /// read up to n bytes of the body and send them (echo)
    Echo(u32),
    /// write!(..) formatting machinery
    Fmt(String, u32),
    /// io::copy from a reader with the data
    Copy(Blob),
    /// through a BufWriter with the capacity
    Buffered(u32, Vec<Blob>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FileApi {
    /// response.send(path)
    SendPathBuf,
    /// response.try_send(&Path)
    TrySendPath,
    /// send_file_with_mime(path, mime fn)
    WithMime,
    /// send_file_with_mime + send_not_found
    NotFoundMsg,
    /// send_file_with_mime + ignore_send_error and a custom response
    Ignore,
    /// try_send(File)
    FileObj,
    /// try_send + recover_response
    Recover,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Respond {
    /// just drop the response
    Drop,
    Send(Blob, SendApi),
    Opt(Option<Blob>),
    Res(Result<Blob, Blob>),
    IoErr(bool, String),
    Chunked(Vec<Piece>, Fin),
    /// declared length = sum of the pieces
    Raw(Vec<Piece>, Fin),
    File(u32, FileApi),
    /// the file that the query parameter `file` names, if it passes `check_path`
    /// (the index is the file the client means)
    Served(u32, FileApi),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileSpec {
    /// path below the simulated root
    pub path: String,
    pub data: Blob,
    pub exists: bool,
    pub open_err: i32,
    pub stat_err: i32,
    /// fails with this errno when the offset is reached
    pub read_err: Option<(u64, i32)>,
    /// (offset, new length): when a read reaches the offset the file is cut/grown
    pub resize: Option<(u64, u64)>,
    pub max_read: u32,
    pub eintr: bool,
    /// replaced by other bytes, once it was opened this many times
    #[serde(default)]
    pub replaced: Option<u32>,
    /// as many as there were, or this many
    #[serde(default)]
    pub new_len: Option<u32>,
    /// claims to be this long, but isn't
    #[serde(default)]
    pub huge: Option<u64>,
}

/// What a replaced file contains.
pub fn other_content(b: &[u8], len: Option<u32>) -> Vec<u8> {
    let n = len.map_or(b.len(), |l| l as usize);
    b.iter().map(|c| c ^ 0x2a).chain(std::iter::repeat(b'+')).take(n).collect()
}

impl ServerCfg {
    /// The address the server should listen on.
    pub fn address(&self) -> std::net::SocketAddr {
        use std::net::*;
        if self.v6 {
            let (ip, flow, scope) = match self.host {
                0 => (Ipv6Addr::LOCALHOST, 0, 0),
                1 => (Ipv6Addr::new(0xfd00, 1, 2, 3, 4, 5, 6, 7), 77, 3),
                2 => (Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 9), 5, 2),
                3 => (Ipv6Addr::UNSPECIFIED, 0, 0),
                _ => (Ipv6Addr::new(0, 0, 0, 0, 0, 0xffff, 0x7f00, 1), 0, 0),
            };
            SocketAddr::V6(SocketAddrV6::new(ip, self.port, flow, scope))
        } else {
            let ip = match self.host {
                0 | 1 | 6 => Ipv4Addr::UNSPECIFIED,
                2 => Ipv4Addr::new(192, 168, 1, 7),
                3 => Ipv4Addr::new(127, 0, 0, 1),
                4 => Ipv4Addr::new(10, 20, 30, 40),
                _ => Ipv4Addr::new(172, 16, 254, 3),
            };
            SocketAddr::V4(SocketAddrV4::new(ip, self.port))
        }
    }
    pub fn pool(&self) -> usize {
        self.threads.unwrap_or(self.cpus * 5 / 4)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConnSpec {
    pub start: Ns,
    pub port: u16,
    pub v6: bool,
    pub reqs: Vec<Req>,
    pub steps: Vec<Step>,
    /// latency base and jitter
    pub lat: Ns,
    pub jitter: Ns,
    /// mean fragment size (0 = everything at once)
    pub frag: u32,
    /// receive window of the client (0 = unlimited)
    pub window: u32,
    /// the client reads at most so much, every so often (0 = immediately)
    pub read_every: Ns,
    /// short reads and writes on the server side
    pub short_io: bool,
    pub eintr: bool,
    /// fail getpeername
    pub peer_err: bool,
    /// client resets when it has received that many bytes
    pub rst_after_rx: Option<u64>,
    /// send on the server fails with this errno after that many bytes
    pub send_err: Option<(u64, i32)>,
    /// only once (the system was short of memory)
    #[serde(default)]
    pub send_once: bool,
    /// dup of the socket fails
    pub dup_err: bool,
    /// the tls stub handshake fails
    pub tls_bad: bool,
    /// setsockopt fails from the nth call on
    pub sockopt_err: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Step {
    /// send requests a..b (indices), one burst
    Send(usize, usize),
    /// send the first n bytes of a request only
    SendPart(usize, u32),
    /// the remaining bytes of a request after SendPart
    SendRest(usize),
    /// wait until n final responses were received in total, or the server closed
    Wait(usize),
    Pause(Ns),
    HalfClose,
    Close,
    Reset,
    StopRead,
    StartRead,
    /// wait until the server closed the connection
    WaitClose,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Target {
    /// origin form: raw path + query
    Origin,
    /// absolute form with authority
    Absolute(String),
    Star,
    Authority(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Body {
    None,
    Sized(Blob),
    Chunked(Blob, Vec<u32>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub op: u32,
    pub method: String,
    pub target: Target,
    /// raw, percent encoded
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
    pub http10: bool,
    pub headers: Vec<(String, String)>,
    pub body: Body,
    /// a malformed request: sent literally instead
    pub bad: Option<Blob>,
    /// identifies the request; travels in headers, path or query
    pub token: String,
    /// the Content-Length says this, but only the body is ever sent
    #[serde(default)]
    pub claim: Option<u64>,
    /// there is no Host header
    #[serde(default)]
    pub no_host: bool,
    /// more headers, with values that aren't text
    #[serde(default)]
    pub raw: Vec<(String, Blob)>,
}

impl Req {
    pub fn target_string(&self) -> String {
        let mut p = String::new();
        match self.target {
            Target::Star => return "*".into(),
            Target::Authority(ref a) => return a.clone(),
            Target::Absolute(ref a) => {
                if !a.contains(':') || !a.contains('/') && !a.ends_with(':') {
                    p.push_str("http://");
                }
                p.push_str(a);
            }
            Target::Origin => {}
        }
        p.push_str(&self.path);
        if let Some(ref q) = self.query {
            p.push('?');
            p.push_str(q);
        }
        if let Some(ref f) = self.fragment {
            p.push('#');
            p.push_str(f);
        }
        p
    }
    /// (head, body) bytes
    pub fn encode(&self) -> (Vec<u8>, Vec<u8>) {
        if let Some(ref b) = self.bad {
            return (b.bytes(), vec![]);
        }
        let mut h = format!("{} {} HTTP/1.{}\r\n", self.method, self.target_string(), if self.http10 { 0 } else { 1 });
        if !self.no_host && self.headers.iter().all(|h| h.0 != "Host") {
            h.push_str("Host: sim.example\r\n");
        }
        h.push_str(&format!("X-Op: {}\r\nX-Token: {}\r\n", self.op, self.token));
        for (k, v) in &self.headers {
            h.push_str(&format!("{}: {}\r\n", k, v));
        }
        let body = match self.body {
            Body::None => vec![],
            Body::Sized(ref b) => {
                let b = b.bytes();
                h.push_str(&format!("Content-Length: {}\r\n", self.claim.unwrap_or(b.len() as u64)));
                b
            }
            Body::Chunked(ref b, ref sizes, style) => {
                h.push_str("Transfer-Encoding: chunked\r\n");
                let b = b.bytes();
                let mut out = vec![];
                let mut pos = 0;
                let mut i = 0;
                while pos < b.len() {
                    let n = if sizes.is_empty() { b.len() } else { sizes[i % sizes.len()].max(1) as usize };
                    let n = n.min(b.len() - pos);
                    let ext = match style {
                        1 => ";ext=1",
                        2 => " ",
                        3 => "; a=\"b\"",
                        _ => "",
                    };
                    if style == 4 {
                        out.extend_from_slice(format!("{:X}\r\n", n).as_bytes());
                    } else if style == 5 {
                        out.extend_from_slice(format!("000{:x}\r\n", n).as_bytes());
                    } else {
                        out.extend_from_slice(format!("{:x}{}\r\n", n, ext).as_bytes());
                    }
                    out.extend_from_slice(&b[pos..pos + n]);
                    out.extend_from_slice(b"\r\n");
                    pos += n;
                    i += 1;
                }
                out.extend_from_slice(if style == 6 { b"0\r\nX-Trailer: t\r\n\r\n" } else { b"0\r\n\r\n" });
                out
            }
        };
        let mut h = h.into_bytes();
        for (k, v) in &self.raw {
            h.extend_from_slice(k.as_bytes());
            h.extend_from_slice(b": ");
            h.extend(v.bytes());
            h.extend_from_slice(b"\r\n");
        }
        h.extend_from_slice(b"\r\n");
        (h, body)
    }
    pub fn body_bytes(&self) -> Vec<u8> {
        match self.body {
            Body::None => vec![],
            Body::Sized(ref b) | Body::Chunked(ref b, ..) => b.bytes(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClockSpec {
    /// unix time at the start
    pub start: i64,
    /// (when, by how many ns the realtime clock jumps)
    pub jumps: Vec<(Ns, i64)>,
    /// cost of a system call
    pub sys_cost: Ns,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SysFaults {
    /// accept call number -> errno
    pub accept: Vec<(u32, i32)>,
    /// numbers of the threads that the system refuses to start (the first one accepts
    /// connections, the next ones serve them)
    #[serde(default)]
    pub spawn: Vec<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCfg {
    /// mean number of instrumented edges between preemptions (0 = none)
    pub preempt: u32,
    /// probability (of 256) to switch at a system call
    pub sys_switch: u32,
    /// 0 random, 1 prefer newest, 2 priorities
    pub policy: u8,
}

// ------------------------------------------------------------------ events

#[derive(Clone, Debug)]
pub struct HStart {
    pub addr: String,
    pub hid: u32,
    pub op: Option<u32>,
    pub token: Option<String>,
    pub method: String,
    pub path: Option<Vec<u8>>,
    pub vars: Vec<(Vec<u8>, Vec<u8>)>,
    pub query: Vec<(Vec<u8>, Vec<u8>)>,
    pub headers: Vec<(String, Vec<u8>)>,
    /// the port of the Host header (the text leaves some out)
    pub port: Option<u16>,
    pub fragment: Option<Vec<u8>>,
    pub http10: bool,
    pub links: Vec<String>,
    pub global: String,
    pub status: u16,
    pub storage: Vec<String>,
    pub version: String,
    /// ways to look at the same data that disagree
    pub wrong: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    HStart(Box<HStart>),
    HEnd,
    /// a file was opened (that was replaced before)
    Opened(bool),
    /// a read from the body: what was returned
    Read { bytes: Vec<u8>, eof: bool, err: Option<String>, who: &'static str },
    QueryBody(Result<Vec<(Vec<u8>, Vec<u8>)>, String>),
    MpNone,
    /// is it multipart?
    MpAsk(bool),
    MpField { name: String, filename: Option<String>, ctype: Option<String>, data: Vec<u8>, err: Option<String> },
    MpEnd { err: Option<String> },
    /// result of a response api call
    Api { step: i32, what: &'static str, ok: bool, n: u64, err: String },
    CF { idx: u32, op: Option<u32>, token: Option<String>, method: String, path: Option<Vec<u8>>, storage: Vec<String>, action: &'static str, addr: String },
    /// (`seen`: the headers at the begin, without the server's own)
    RF { idx: u32, call: &'static str, op: Option<u32>, token: Option<String>, status: u16, n: i64, writes: u32, global: String, seen: Vec<(String, String)> },
    Panic(&'static str),
    Note(String),
}

pub type LogFn = fn(Ev);
static mut LOG: Option<LogFn> = None;

pub fn set_log(f: LogFn) {
    unsafe { LOG = Some(f) }
}

pub fn log(ev: Ev) {
    unsafe {
        if let Some(f) = LOG {
            f(ev)
        }
    }
}
