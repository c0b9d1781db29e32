//! The simulator: cooperative threads (real pthreads that only run while they hold the baton),
//! a virtual clock, a simulated network with scripted clients, a simulated file system, and the
//! recorded choices that decide every schedule, delay and fault.
use crate::http;
use crate::sys::{raw6, R};
use libc::{c_char, c_int, c_void, iovec, sockaddr, timespec};
use simproto::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap, HashMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

// ------------------------------------------------------------------ thread context

pub const NOT_SIM: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOT_SIM) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub struct Guard(());

impl Guard {
    #[inline]
    pub fn enter() -> Option<Guard> {
        if TID.with(|t| t.get()) == NOT_SIM || DEPTH.with(|d| d.get()) != 0 {
            return None;
        }
        DEPTH.with(|d| d.set(1));
        Some(Guard(()))
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(0));
    }
}

fn tid() -> usize {
    TID.with(|t| t.get())
}

// ------------------------------------------------------------------ randomness and choices

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x2545F4914F6CDD1D);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() >> 11) as u128 * n as u128 >> 53) as u64
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

/// Where the choices are kept: shared with the parent process so that they survive a crash.
pub struct Choices {
    pub buf: *mut u32,
    pub cap: usize,
    /// points into shared memory
    pub len: *mut u32,
    pub replay: Option<Vec<u32>>,
    pub rng: Rng,
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    Futex(usize),
    Sleep,
    Accept,
    Read(usize),
    Write(usize),
    Join(usize),
    Done,
}

pub struct Thr {
    pub st: St,
    pub gen: u32,
    pub timed_out: bool,
    pub parker: Box<AtomicU32>,
    pub pthread: u64,
    pub conn: Option<usize>,
    pub prio: u64,
    pub accepts: u32,
    pub in_handler: bool,
}

pub enum EvK {
    Timeout(usize, u32),
    Start(usize),
    /// bytes arrive at the server
    C2S(usize, Vec<u8>),
    C2SFin(usize),
    C2SRst(usize),
    S2C(usize, usize),
    S2CFin(usize),
    ClientTimer(usize, u32),
    ClientRead(usize),
}

struct Event {
    at: Ns,
    seq: u64,
    k: EvK,
}
impl PartialEq for Event {
    fn eq(&self, o: &Event) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Event {}
impl PartialOrd for Event {
    fn partial_cmp(&self, o: &Event) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Event {
    fn cmp(&self, o: &Event) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

/// A request as far as it was put on the wire by the client.
#[derive(Clone, Debug)]
pub struct Sent {
    pub req: usize,
    pub start: u64,
    pub head_end: u64,
    pub end: u64,
    /// how much of it was sent
    pub sent_to: u64,
    pub at: Ns,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub seq: u64,
    pub at: Ns,
    pub cum: u64,
}

#[derive(Default)]
pub struct Conn {
    pub started: bool,
    pub queued: bool,
    pub accepted: Option<(u64, Ns, usize)>,
    pub refs: u32,
    pub fds_opened: u32,
    // client to server
    pub sent: Vec<Sent>,
    pub c2s_len: u64,
    pub c2s_last: Ns,
    pub rx: VecDeque<u8>,
    pub rx_total: u64,
    pub arrived: Vec<Mark>,
    pub consumed: u64,
    pub consume_marks: Vec<Mark>,
    pub rx_fin: bool,
    pub rx_rst: bool,
    pub rst_reported: bool,
    pub fin_at: Option<Mark>,
    pub rst_at: Option<Mark>,
    pub eof_read: bool,
    pub rcv_timeout: Option<Ns>,
    pub timeouts_fired: Vec<Mark>,
    pub sockopt_calls: u32,
    // server to client
    pub tx: Vec<u8>,
    pub tx_marks: Vec<Mark>,
    pub tx_err: Option<Mark>,
    pub s2c_last: Ns,
    pub delivered: u64,
    pub read: u64,
    pub read_marks: Vec<Mark>,
    pub reading: bool,
    pub read_timer: bool,
    pub shut: Option<Mark>,
    pub closed: Option<Mark>,
    pub fin_to_client: bool,
    // client
    pub step: usize,
    pub timer_gen: u32,
    pub waiting_timer: bool,
    pub client_done: bool,
    pub client_fin: bool,
    pub client_closed: bool,
    pub client_reset: bool,
    pub final_responses: usize,
    pub parsed_to: usize,
    pub wait: Option<http::Wait>,
    pub saw_close: bool,
    pub saw_bad: bool,
    pub skipped: bool,
    pub hello_sent: bool,
    pub part: HashMap<usize, (u64, Vec<u8>)>,
    pub faults: u32,
    pub eintrs: u32,
    pub send_eintrs: u32,
    pub send_failed: bool,
}

pub enum Fd {
    Listener,
    Conn(usize),
    File { idx: usize, pos: u64, eintr: bool },
    Other,
}

#[derive(Clone, Debug)]
pub enum Sys {
    Spawn(usize),
    Exit,
    Accept,
    AcceptErr(i32),
    Recv(u64),
    RecvEof,
    RecvErr(i32),
    Send(u64),
    SendErr(i32),
    Shutdown,
    Close,
    PeerErr,
    DupErr,
    SockoptErr,
    Panic { msg: String, loc: String },
    FileOpen(i32),
    /// a path outside of the directory with the files
    Escape(String),
    Probe,
}

pub enum What {
    App(Ev),
    Sys(Sys),
}

pub struct Entry {
    pub seq: u64,
    pub at: Ns,
    pub tid: usize,
    pub conn: Option<usize>,
    pub tx: u64,
    pub consumed: u64,
    pub what: What,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Phase {
    Main,
    Probe,
    Done,
}

pub struct Sim {
    pub sc: &'static Scenario,
    /// scripted connections followed by the probe connections
    pub specs: Vec<ConnSpec>,
    pub now: Ns,
    pub seq: u64,
    pub thrs: Vec<Thr>,
    pub cur: usize,
    events: BinaryHeap<Event>,
    pub conns: Vec<Conn>,
    pub backlog: VecDeque<usize>,
    pub listening: bool,
    /// the addresses that were bound
    pub bound: Vec<std::net::SocketAddr>,
    pub fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub log: Vec<Entry>,
    pub ch: Choices,
    hash_rng: Rng,
    accepts: u32,
    pub files: Vec<FileState>,
    pub faults: BTreeMap<&'static str, u64>,
    pub switches: u64,
    pub edges: u64,
    pub syscalls: u64,
    pub preemptions: u64,
    pub trace: u64,
    /// when threads were stalled
    pub stalls: Vec<(Ns, Ns)>,
    pub phase: Phase,
    pub probe_first: usize,
    pub error: Option<String>,
    pub livelock: Option<String>,
    pub aborted: bool,
    pub start_result: Option<Result<String, String>>,
    pub spawns: u32,
    pub steps_main: u64,
    pub end_main: Ns,
    pub held: usize,
    pub probes_started: usize,
}

pub struct FileState {
    pub data: Vec<u8>,
    pub resized: bool,
    pub opened: u32,
    /// when it was replaced
    pub replaced: Option<i128>,
    pub interrupted: bool,
    pub delivered: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut COUNTDOWN: i64 = 0;
static mut EDGE_COUNT: u64 = 0;
/// As many edges may follow the latest system call.
static mut EDGE_LIMIT: u64 = MAX_EDGES;
pub static mut EDGES: u32 = 0;
/// The guards of each instrumented module.
pub static mut GUARDS: Vec<(usize, usize)> = Vec::new();
pub static mut COVERAGE: *mut u8 = std::ptr::null_mut();
pub const COVERAGE_CAP: usize = 1 << 17;
static DONE: AtomicU32 = AtomicU32::new(0);

const MAX_EDGES: u64 = 60_000_000;
const MAX_SYSCALLS: u64 = 3_000_000;
const MAX_TIME: Ns = 40_000 * SEC;

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ------------------------------------------------------------------ choices

impl Sim {
    fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let c = &mut self.ch;
        let i = unsafe { *c.len } as usize;
        let v = match c.replay {
            Some(ref r) => match r.get(i) {
                Some(&v) if v < n => v,
                _ => 0,
            },
            None if i < c.cap => f(&mut c.rng).min(n - 1),
            None => 0,
        };
        if i < c.cap {
            unsafe {
                *c.buf.add(i) = v;
                *c.len = i as u32 + 1;
            }
        }
        v
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n as u32, |r| r.below(n as u64) as u32) as usize
    }
    pub fn chance(&mut self, p256: u32) -> bool {
        if p256 == 0 {
            return false;
        }
        self.choose(2, |r| (r.below(256) < p256 as u64) as u32) == 1
    }
    fn fault(&mut self, name: &'static str) {
        *self.faults.entry(name).or_insert(0) += 1;
    }
    fn mix(&mut self, v: u64) {
        self.trace = (self.trace ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    }

    pub fn rt(&self) -> i128 {
        self.rt_at(self.now)
    }
    pub fn rt_at(&self, t: Ns) -> i128 {
        let mut x = self.sc.clock.start as i128 * SEC as i128 + t as i128;
        for j in &self.sc.clock.jumps {
            if j.0 <= t {
                x += j.1 as i128;
            }
        }
        x
    }

    fn push(&mut self, at: Ns, k: EvK) {
        self.seq += 1;
        let seq = self.seq;
        self.events.push(Event { at, seq, k });
    }

    pub fn record(&mut self, what: What) {
        self.seq += 1;
        let cur = self.cur;
        let conn = self.thrs.get(cur).and_then(|t| t.conn);
        let (tx, consumed) = conn.map_or((0, 0), |c| (self.conns[c].tx.len() as u64, self.conns[c].consumed));
        let d = match what {
            What::App(ref e) => match *e {
                Ev::HStart(_) => 1,
                Ev::HEnd => 2,
                Ev::Read { .. } => 3,
                Ev::Api { .. } => 4,
                Ev::CF { .. } => 5,
                Ev::RF { .. } => 6,
                Ev::Panic(_) => 7,
                _ => 8,
            },
            What::Sys(ref s) => match *s {
                Sys::Spawn(_) => 16,
                Sys::Exit => 17,
                Sys::Accept => 18,
                Sys::Recv(_) => 19,
                Sys::Send(_) => 20,
                Sys::Close => 21,
                Sys::Shutdown => 22,
                _ => 23,
            },
        };
        self.mix(((cur as u64) << 8) | d);
        let e = Entry { seq: self.seq, at: self.now, tid: cur, conn, tx, consumed, what };
        if std::env::var_os("DST_TRACE").is_some() {
            eprintln!("{}", describe(&e));
        }
        self.log.push(e);
    }

    fn mark(&mut self, cum: u64) -> Mark {
        self.seq += 1;
        Mark { seq: self.seq, at: self.now, cum }
    }
}

pub fn describe(e: &Entry) -> String {
    let w = match e.what {
        What::App(ref a) => {
            let s = format!("{:?}", a);
            let mut cut = s.len().min(400);
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s[..cut].to_string()
        }
        What::Sys(ref s) => format!("{:?}", s),
    };
    format!("{:>12.6} #{} t{} c{:?} tx={} rx={} {}", e.at as f64 / 1e9, e.seq, e.tid, e.conn, e.tx, e.consumed, w)
}

// ------------------------------------------------------------------ scheduling

fn park(p: &AtomicU32) {
    while p.load(SeqCst) == 0 {
        unsafe {
            raw6(libc::SYS_futex, p as *const _ as usize, libc::FUTEX_WAIT as usize | libc::FUTEX_PRIVATE_FLAG as usize, 0, 0, 0, 0);
        }
    }
    p.store(0, SeqCst);
}

fn unpark(p: &AtomicU32) {
    p.store(1, SeqCst);
    unsafe {
        raw6(libc::SYS_futex, p as *const _ as usize, libc::FUTEX_WAKE as usize | libc::FUTEX_PRIVATE_FLAG as usize, 1, 0, 0, 0);
    }
}

fn set_countdown() {
    let s = sim();
    let mean = s.sc.sched.preempt;
    unsafe {
        COUNTDOWN = if mean == 0 {
            i64::MAX
        } else {
            // 0 = never again; mostly near, sometimes far
            let v = s.choose(u32::MAX, |r| {
                let m = match r.below(8) {
                    0 => 1 + mean / 16,
                    1..=4 => mean,
                    _ => mean.saturating_mul(6),
                };
                1 + r.below(2 * m as u64) as u32
            });
            if v == 0 {
                i64::MAX
            } else {
                v as i64
            }
        };
    }
}

/// Called for every instrumented edge and memory access.
#[inline]
pub fn edge(id: u32) {
    unsafe {
        if TID.with(|t| t.get()) == NOT_SIM || DEPTH.with(|d| d.get()) != 0 {
            return;
        }
        if id != 0 {
            *COVERAGE.add(id as usize & (COVERAGE_CAP - 1)) = 1;
            EDGE_COUNT += 1;
        }
        COUNTDOWN -= 1;
        if COUNTDOWN <= 0 {
            preempt();
        }
        if EDGE_COUNT > EDGE_LIMIT {
            let _g = Guard::enter();
            livelock("an instrumented loop does not end");
        }
    }
}

#[inline(never)]
#[cold]
fn preempt() {
    unsafe {
        let e = *libc::__errno_location();
        if let Some(_g) = Guard::enter() {
            set_countdown();
            let s = sim();
            s.preemptions += 1;
            let stall = s.choose(8, |r| if r.below(4) == 0 { 1 + r.below(7).min(r.below(7)) as u32 } else { 0 });
            if stall > 0 {
                s.fault("thread_stall");
                let d = [0, 1 * US, 5 * US, 20 * US, 100 * US, MS, 20 * MS, 300 * MS][stall as usize];
                let from = s.now;
                block(St::Sleep, Some(s.now + d));
                s.stalls.push((from, s.now));
            } else {
                switch();
            }
        }
        *libc::__errno_location() = e;
    }
}

fn livelock(what: &str) -> ! {
    let s = sim();
    if std::env::var("DST_DEBUG").is_ok() { eprintln!("LIVELOCK tid {} now {} {}\n{}", TID.with(|t| t.get()), s.now, what, std::backtrace::Backtrace::force_capture()); }
    if s.livelock.is_none() {
        s.livelock = Some(what.to_string());
    }
    finish()
}

pub fn harness_error(m: &str) {
    let s = sim();
    if s.error.is_none() {
        s.error = Some(m.to_string());
    }
    finish()
}

fn finish() -> ! {
    // the run is over: the original thread takes over, this one never runs again
    unpark(&DONE);
    let p = AtomicU32::new(0);
    loop {
        park(&p);
    }
}

/// The current thread stays runnable, but another one may go first.
fn switch() {
    let s = sim();
    let me = s.cur;
    s.thrs[me].st = St::Runnable;
    schedule(me);
}

/// Blocks the current thread; true if the deadline passed.
fn block(st: St, deadline: Option<Ns>) -> bool {
    let s = sim();
    let me = s.cur;
    s.thrs[me].st = st;
    s.thrs[me].gen += 1;
    s.thrs[me].timed_out = false;
    if let Some(d) = deadline {
        let g = s.thrs[me].gen;
        s.push(d, EvK::Timeout(me, g));
    }
    schedule(me);
    sim().thrs[me].timed_out
}

fn wake(t: usize) {
    let s = sim();
    if s.thrs[t].st != St::Done && s.thrs[t].st != St::Runnable {
        s.thrs[t].st = St::Runnable;
        s.thrs[t].gen += 1;
    }
}

fn wake_all(st: St) {
    let s = sim();
    for i in 0..s.thrs.len() {
        if s.thrs[i].st == st {
            wake(i);
        }
    }
}

/// Picks who runs next and hands over. Returns when `me` is running again.
fn schedule(me: usize) {
    let next = match decide(me) {
        Some(n) => n,
        None => finish(),
    };
    let s = sim();
    s.cur = next;
    if next == me {
        return;
    }
    s.switches += 1;
    s.mix(0xA000 + next as u64);
    let done = s.thrs[me].st == St::Done;
    let mine: *const AtomicU32 = &*s.thrs[me].parker;
    unpark(&s.thrs[next].parker);
    if !done {
        park(unsafe { &*mine });
    }
}

fn decide(me: usize) -> Option<usize> {
    let s = sim();
    loop {
        while s.events.peek().map_or(false, |e| e.at <= s.now) {
            let e = s.events.pop().unwrap();
            handle(e.k);
        }
        // the current thread first: choice 0 is "no switch"
        let mut run: Vec<usize> = vec![];
        if s.thrs[me].st == St::Runnable {
            run.push(me);
        }
        for i in 0..s.thrs.len() {
            if i != me && s.thrs[i].st == St::Runnable {
                run.push(i);
            }
        }
        if !run.is_empty() {
            let k = match s.sc.sched.policy {
                _ if run.len() == 1 => 0,
                1 => {
                    // the newest first, mostly
                    let n = run.len() as u32;
                    s.choose(n, |r| if r.below(4) == 0 { r.below(n as u64) as u32 } else { n - 1 })
                }
                2 => {
                    let n = run.len() as u32;
                    let prios: Vec<u64> = run.iter().map(|&i| s.thrs[i].prio).collect();
                    let best = (0..run.len()).max_by_key(|&i| prios[i]).unwrap() as u32;
                    s.choose(n, |r| if r.below(16) == 0 { r.below(n as u64) as u32 } else { best })
                }
                _ => s.pick(run.len()) as u32,
            };
            return Some(run[k as usize]);
        }
        match s.events.peek() {
            Some(e) => {
                s.now = e.at;
                if s.now > MAX_TIME {
                    livelock("simulated time ran away");
                }
            }
            None => {
                if !quiescent() {
                    return None;
                }
            }
        }
    }
}

/// Nothing is left to happen. True if something more was started.
fn quiescent() -> bool {
    let s = sim();
    match s.phase {
        Phase::Main => {
            s.end_main = s.now;
            s.steps_main = s.syscalls;
            // threads that a client still holds, because it never sends or reads the rest
            s.held = s.thrs.iter().filter(|t| matches!(t.st, St::Read(_) | St::Write(_))).count();
            let free = s.sc.cfg.pool().saturating_sub(s.held).min(s.sc.probes.len());
            if free == 0 || !s.listening {
                s.phase = Phase::Done;
                return false;
            }
            s.phase = Phase::Probe;
            s.probes_started = free;
            s.record(What::Sys(Sys::Probe));
            for c in s.probe_first..s.probe_first + free {
                let at = s.now + s.specs[c].start;
                s.push(at, EvK::Start(c));
            }
            true
        }
        _ => {
            s.phase = Phase::Done;
            false
        }
    }
}

/// Every system call: costs time, may switch.
fn tick() {
    let s = sim();
    s.syscalls += 1;
    if s.syscalls > MAX_SYSCALLS {
        livelock("the system calls do not end");
    }
    unsafe {
        EDGE_LIMIT = EDGE_COUNT + MAX_EDGES;
    }
    s.now += s.sc.clock.sys_cost;
    while s.events.peek().map_or(false, |e| e.at <= s.now) {
        let e = s.events.pop().unwrap();
        handle(e.k);
    }
    let p = s.sc.sched.sys_switch;
    if p > 0 && s.chance(p) {
        switch();
    }
}

// ------------------------------------------------------------------ threads

struct Start {
    tid: usize,
    parker: *const AtomicU32,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}

extern "C" {
    fn __cxa_thread_atexit_impl(dtor: unsafe extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
    static __dso_handle: u8;
}

unsafe extern "C" fn thread_gone(arg: *mut c_void) {
    // runs after all other thread local destructors
    let t = arg as usize;
    DEPTH.with(|d| d.set(1));
    let s = sim();
    s.record(What::Sys(Sys::Exit));
    s.thrs[t].st = St::Done;
    wake_all(St::Join(t));
    schedule(t);
    TID.with(|t| t.set(NOT_SIM));
}

extern "C" fn thread_main(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let st = Box::from_raw(arg as *mut Start);
        TID.with(|t| t.set(st.tid));
        DEPTH.with(|d| d.set(1));
        __cxa_thread_atexit_impl(thread_gone, st.tid as *mut c_void, &__dso_handle as *const u8 as *mut c_void);
        // the list of threads may be growing at this very moment
        park(&*st.parker);
        DEPTH.with(|d| d.set(0));
        (st.f)(st.arg)
    }
}

fn new_thread(s: &mut Sim) -> usize {
    let t = s.thrs.len();
    let prio = if s.sc.sched.policy == 2 { s.choose(1 << 16, |r| r.below(1 << 16) as u32) as u64 } else { 0 };
    s.thrs.push(Thr {
        st: St::Runnable,
        gen: 0,
        timed_out: false,
        parker: Box::new(AtomicU32::new(0)),
        pthread: 0,
        conn: None,
        prio,
        accepts: 0,
        in_handler: false,
    });
    t
}

pub unsafe fn thread_create(
    real: impl FnOnce(extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int,
    t: *mut libc::pthread_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let s = sim();
    tick();
    s.spawns += 1;
    if s.sc.faults.spawn.contains(&s.spawns) {
        s.fault("pthread_create_error");
        return libc::EAGAIN;
    }
    let id = new_thread(s);
    let st = Box::into_raw(Box::new(Start { tid: id, parker: &*s.thrs[id].parker, f, arg }));
    let r = real(thread_main, st as *mut c_void);
    if r != 0 {
        harness_error("pthread_create failed");
    }
    s.thrs[id].pthread = *t as u64;
    s.record(What::Sys(Sys::Spawn(id)));
    if s.thrs.len() > 4000 {
        livelock("too many threads");
    }
    r
}

pub fn thread_join(p: u64) {
    let s = sim();
    if let Some(t) = s.thrs.iter().position(|t| t.pthread == p) {
        while sim().thrs[t].st != St::Done {
            block(St::Join(t), None);
        }
    }
}

pub fn yield_now() {
    tick();
    switch();
}

pub fn cpus() -> usize {
    sim().sc.cfg.cpus
}

pub fn process_aborted() {
    sim().aborted = true;
    finish()
}

pub fn futex_wait(addr: usize, val: u32, timeout: Option<timespec>, abs: bool, realtime: bool) -> R {
    let s = sim();
    let cur = unsafe { &*(addr as *const AtomicU32) }.load(SeqCst);
    if cur != val {
        return Err(libc::EAGAIN);
    }
    let deadline = timeout.map(|t| {
        let ns = t.tv_sec as u64 * SEC + t.tv_nsec as u64;
        if !abs {
            s.now + ns
        } else if realtime {
            s.now + (ns as i128 - s.rt()).max(0) as u64
        } else {
            ns.saturating_sub(MONO_BASE)
        }
    });
    if block(St::Futex(addr), deadline) {
        Err(libc::ETIMEDOUT)
    } else {
        Ok(0)
    }
}

pub fn futex_wake(addr: usize, n: usize) -> R {
    let s = sim();
    let mut w: Vec<usize> = (0..s.thrs.len()).filter(|&i| s.thrs[i].st == St::Futex(addr)).collect();
    let mut k = 0;
    while k < n && !w.is_empty() {
        let i = s.pick(w.len());
        wake(w.remove(i));
        k += 1;
    }
    Ok(k as isize)
}

pub fn random(p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        unsafe { *p.add(i) = s.hash_rng.next() as u8 };
    }
}

const MONO_BASE: u64 = 1_000_000 * SEC;

pub fn clock(clk: c_int) -> (i64, i64) {
    let s = sim();
    let v = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { s.rt() } else { (MONO_BASE + s.now) as i128 };
    (v.div_euclid(SEC as i128) as i64, v.rem_euclid(SEC as i128) as i64)
}

pub fn sleep(ns: Ns) {
    let s = sim();
    tick();
    block(St::Sleep, Some(s.now + ns));
}

// ------------------------------------------------------------------ descriptors

fn new_fd(s: &mut Sim, f: Fd) -> i32 {
    s.next_fd += 1;
    let n = s.next_fd;
    s.fds.insert(n, f);
    n
}

fn conn_of(fd: c_int) -> Result<usize, c_int> {
    match sim().fds.get(&fd) {
        Some(&Fd::Conn(c)) => Ok(c),
        Some(_) => Err(libc::ENOTSOCK),
        None => Err(libc::EBADF),
    }
}

/// The port of a server that leaves the choice to the system.
pub const ANY_PORT: u16 = 34567;

fn start_err(which: u8) -> Result<(), c_int> {
    let s = sim();
    match s.sc.cfg.start_err {
        Some((w, e)) if w == which => {
            s.fault("start_refused");
            Err(e)
        }
        _ => Ok(()),
    }
}

pub fn socket() -> R {
    tick();
    start_err(0)?;
    Ok(new_fd(sim(), Fd::Listener) as isize)
}

pub unsafe fn bind(_fd: c_int, a: *const sockaddr) -> R {
    tick();
    use std::net::{Ipv4Addr, Ipv6Addr, SocketAddrV4, SocketAddrV6};
    let at = match (*a).sa_family as c_int {
        libc::AF_INET => {
            let x = &*(a as *const libc::sockaddr_in);
            SocketAddrV4::new(Ipv4Addr::from(u32::from_be(x.sin_addr.s_addr)), u16::from_be(x.sin_port)).into()
        }
        libc::AF_INET6 => {
            let x = &*(a as *const libc::sockaddr_in6);
            SocketAddrV6::new(Ipv6Addr::from(x.sin6_addr.s6_addr), u16::from_be(x.sin6_port), x.sin6_flowinfo, x.sin6_scope_id).into()
        }
        _ => return Err(libc::EAFNOSUPPORT),
    };
    // it is the first address that can't be used, others can
    if sim().bound.is_empty() || sim().bound[0] == at {
        sim().bound.push(at);
        start_err(2)?;
    } else {
        sim().bound.push(at);
    }
    Ok(0)
}

pub fn listen(_fd: c_int) -> R {
    tick();
    start_err(3)?;
    let s = sim();
    if !s.listening && s.sc.cfg.start_err.is_none() {
        s.listening = true;
        for c in 0..s.probe_first {
            let at = s.now + s.specs[c].start;
            s.push(at, EvK::Start(c));
        }
    }
    Ok(0)
}

unsafe fn put_addr(v6: bool, host: u32, port: u16, a: *mut sockaddr, l: *mut u32) {
    if a.is_null() {
        return;
    }
    if v6 {
        let mut x: libc::sockaddr_in6 = std::mem::zeroed();
        x.sin6_family = libc::AF_INET6 as u16;
        x.sin6_port = port.to_be();
        x.sin6_addr.s6_addr[15] = 1;
        x.sin6_addr.s6_addr[11..15].copy_from_slice(&host.to_be_bytes());
        *(a as *mut libc::sockaddr_in6) = x;
        *l = std::mem::size_of::<libc::sockaddr_in6>() as u32;
    } else {
        let mut x: libc::sockaddr_in = std::mem::zeroed();
        x.sin_family = libc::AF_INET as u16;
        x.sin_port = port.to_be();
        x.sin_addr.s_addr = (0x0A00_0000u32 + host).to_be();
        *(a as *mut libc::sockaddr_in) = x;
        *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
    }
}

/// The address of the client, as text.
pub fn peer_text(c: usize, spec: &ConnSpec) -> String {
    let host = c as u32 + 1;
    if spec.v6 {
        let mut o = [0u8; 16];
        o[15] = 1;
        o[11..15].copy_from_slice(&host.to_be_bytes());
        std::net::SocketAddr::new(std::net::Ipv6Addr::from(o).into(), spec.port).to_string()
    } else {
        std::net::SocketAddr::new(std::net::Ipv4Addr::from(0x0A00_0000u32 + host).into(), spec.port).to_string()
    }
}

pub unsafe fn accept(fd: c_int, a: *mut sockaddr, l: *mut u32) -> R {
    tick();
    let s = sim();
    match s.fds.get(&fd) {
        Some(&Fd::Listener) => {}
        _ => return Err(libc::EBADF),
    }
    let me = s.cur;
    s.thrs[me].conn = None;
    loop {
        if !s.backlog.is_empty() {
            let n = s.accepts;
            if let Some(e) = s.sc.faults.accept.iter().find(|e| e.0 == n && s.phase != Phase::Probe) {
                s.accepts += 1;
                s.fault("accept_error");
                s.record(What::Sys(Sys::AcceptErr(e.1)));
                if e.1 == libc::ECONNABORTED {
                    // the connection is gone
                    let c = s.backlog.pop_front().unwrap();
                    s.conns[c].faults += 1;
                    let at = s.now + s.specs[c].lat;
                    let m = s.mark(0);
                    s.conns[c].shut = Some(m);
                    s.conns[c].closed = Some(m);
                    s.push(at, EvK::S2CFin(c));
                }
                return Err(e.1);
            }
            s.accepts += 1;
            let c = s.backlog.pop_front().unwrap();
            let f = new_fd(s, Fd::Conn(c));
            s.conns[c].refs += 1;
            s.conns[c].fds_opened += 1;
            s.thrs[me].conn = Some(c);
            s.thrs[me].accepts += 1;
            s.record(What::Sys(Sys::Accept));
            s.conns[c].accepted = Some((s.seq, s.now, me));
            put_addr(s.specs[c].v6, c as u32 + 1, s.specs[c].port, a, l);
            return Ok(f as isize);
        }
        block(St::Accept, None);
    }
}

pub unsafe fn getsockname(_fd: c_int, a: *mut sockaddr, l: *mut u32) -> R {
    start_err(4)?;
    let mut at = match sim().bound.last() {
        Some(b) => *b,
        None => std::net::SocketAddrV4::new(std::net::Ipv4Addr::UNSPECIFIED, 0).into(),
    };
    if at.port() == 0 {
        at.set_port(ANY_PORT);
    }
    match at {
        std::net::SocketAddr::V4(at) => {
            let mut x: libc::sockaddr_in = std::mem::zeroed();
            x.sin_family = libc::AF_INET as u16;
            x.sin_port = at.port().to_be();
            x.sin_addr.s_addr = u32::from(*at.ip()).to_be();
            *(a as *mut libc::sockaddr_in) = x;
            *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
        }
        std::net::SocketAddr::V6(at) => {
            let mut x: libc::sockaddr_in6 = std::mem::zeroed();
            x.sin6_family = libc::AF_INET6 as u16;
            x.sin6_port = at.port().to_be();
            x.sin6_flowinfo = at.flowinfo();
            x.sin6_scope_id = at.scope_id();
            x.sin6_addr.s6_addr = at.ip().octets();
            *(a as *mut libc::sockaddr_in6) = x;
            *l = std::mem::size_of::<libc::sockaddr_in6>() as u32;
        }
    }
    Ok(0)
}

pub unsafe fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut u32) -> R {
    tick();
    let s = sim();
    let c = conn_of(fd)?;
    if s.specs[c].peer_err {
        s.fault("getpeername_error");
        s.conns[c].faults += 1;
        s.record(What::Sys(Sys::PeerErr));
        return Err(libc::ENOTCONN);
    }
    put_addr(s.specs[c].v6, c as u32 + 1, s.specs[c].port, a, l);
    Ok(0)
}

pub unsafe fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const u8, l: usize) -> R {
    let s = sim();
    if let Some(&Fd::Listener) = s.fds.get(&fd) {
        start_err(1)?;
    }
    if let Some(&Fd::Conn(c)) = s.fds.get(&fd) {
        tick();
        s.conns[c].sockopt_calls += 1;
        if s.specs[c].sockopt_err && s.conns[c].sockopt_calls > 1 {
            s.fault("setsockopt_error");
            s.conns[c].faults += 1;
            s.record(What::Sys(Sys::SockoptErr));
            return Err(libc::EINVAL);
        }
        if lv == libc::SOL_SOCKET && o == libc::SO_RCVTIMEO && l >= 16 {
            let tv = *(v as *const libc::timeval);
            let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
            s.conns[c].rcv_timeout = if ns == 0 { None } else { Some(ns) };
        }
    }
    Ok(0)
}

pub unsafe fn getsockopt(_fd: c_int, _lv: c_int, _o: c_int, v: *mut u8, l: *mut u32) -> R {
    std::ptr::write_bytes(v, 0, *l as usize);
    Ok(0)
}

/// Is the position inside the Content-Length body of a request? Interrupted reads are only
/// injected there: the HTTP library gives up on an interrupted head or chunk header.
/// Is the server reading a body of that kind?
fn in_body(s: &Sim, c: usize, chunked: bool) -> bool {
    let p = s.conns[c].consumed;
    let hello = if s.sc.cfg.https { 4 } else { 0 };
    s.conns[c].sent.iter().any(|x| {
        let r = &s.specs[c].reqs[x.req];
        matches!(r.body, Body::Sized(_)) != chunked && matches!(r.body, Body::Sized(_) | Body::Chunked(..)) && r.bad.is_none() && p >= x.head_end + hello && p < x.end + hello
    })
}

pub unsafe fn recv(fd: c_int, buf: *mut u8, n: usize, _flags: c_int) -> R {
    let c = conn_of(fd)?;
    tick();
    let s = sim();
    let start = s.now;
    if s.specs[c].eintr && s.conns[c].eintrs < 50 {
        if in_body(s, c, false) {
            if s.chance(64) {
                s.conns[c].eintrs += 1;
                s.fault("recv_eintr");
                return Err(libc::EINTR);
            }
        } else {
            // it may get lost between the framing and the application, but only as an error
            let n = if in_body(s, c, true) { 32 } else { 3 };
            if s.chance(n) {
                s.conns[c].eintrs += 1;
                s.conns[c].faults += 1;
                s.fault("recv_eintr_framing");
                return Err(libc::EINTR);
            }
        }
    }
    loop {
        let k = &mut s.conns[c];
        if k.shut.is_some() && k.rx.is_empty() {
            return Ok(0);
        }
        if !k.rx.is_empty() {
            let mut m = n.min(k.rx.len());
            if s.specs[c].short_io && m > 1 && s.chance(128) {
                m = 1 + s.pick(m.min(64));
                s.fault("short_recv");
            }
            let k = &mut s.conns[c];
            for i in 0..m {
                *buf.add(i) = k.rx.pop_front().unwrap();
            }
            k.consumed += m as u64;
            let cum = k.consumed;
            let mk = s.mark(cum);
            s.conns[c].consume_marks.push(mk);
            s.record(What::Sys(Sys::Recv(m as u64)));
            return Ok(m as isize);
        }
        if k.rx_rst {
            k.rst_reported = true;
            s.record(What::Sys(Sys::RecvErr(libc::ECONNRESET)));
            return Err(libc::ECONNRESET);
        }
        if k.rx_fin {
            k.eof_read = true;
            s.record(What::Sys(Sys::RecvEof));
            return Ok(0);
        }
        let deadline = k.rcv_timeout.map(|t| start + t);
        if block(St::Read(c), deadline) && s.conns[c].rx.is_empty() && !s.conns[c].rx_fin && !s.conns[c].rx_rst {
            let cum = s.conns[c].consumed;
            let m = s.mark(cum);
            s.conns[c].timeouts_fired.push(m);
            s.record(What::Sys(Sys::RecvErr(libc::EAGAIN)));
            return Err(libc::EAGAIN);
        }
    }
}

pub unsafe fn send(fd: c_int, buf: *const u8, n: usize) -> R {
    let c = conn_of(fd)?;
    tick();
    let s = sim();
    if n == 0 {
        return Ok(0);
    }
    let key = if s.sc.cfg.https { 0x5A } else { 0 };
    loop {
        let k = &mut s.conns[c];
        if k.shut.is_some() || k.rx_rst {
            let first = k.rx_rst && !k.rst_reported;
            k.rst_reported = true;
            let e = if first { libc::ECONNRESET } else { libc::EPIPE };
            let m = s.mark(s.conns[c].tx.len() as u64);
            s.conns[c].tx_err.get_or_insert(m);
            s.record(What::Sys(Sys::SendErr(e)));
            return Err(e);
        }
        let mut m = n;
        let over = s.specs[c].send_once && k.send_failed;
        if let Some((lim, e)) = s.specs[c].send_err.filter(|_| !over) {
            let left = lim.saturating_sub(k.tx.len() as u64);
            if left == 0 {
                k.faults += 1;
                k.send_failed = true;
                let m = s.mark(s.conns[c].tx.len() as u64);
                s.conns[c].tx_err.get_or_insert(m);
                s.fault(if s.specs[c].send_once { "send_error_once" } else { "send_error" });
                s.record(What::Sys(Sys::SendErr(e)));
                return Err(e);
            }
            m = m.min(left as usize);
        }
        let w = s.specs[c].window;
        if s.specs[c].eintr && k.send_eintrs < 50 && s.chance(24) {
            // nothing is lost, and it is tried again
            s.conns[c].send_eintrs += 1;
            s.fault("send_eintr");
            return Err(libc::EINTR);
        }
        let k = &mut s.conns[c];
        if w > 0 {
            let used = k.tx.len() as u64 - k.read;
            if used >= w as u64 {
                s.fault("send_blocked");
                block(St::Write(c), None);
                continue;
            }
            m = m.min((w as u64 - used) as usize);
        }
        if s.specs[c].short_io && m > 1 && s.chance(100) {
            m = 1 + s.pick(m - 1);
            s.fault("short_send");
        }
        let k = &mut s.conns[c];
        for i in 0..m {
            k.tx.push(*buf.add(i) ^ key);
        }
        let cum = k.tx.len() as u64;
        let mk = s.mark(cum);
        s.conns[c].tx_marks.push(mk);
        s.record(What::Sys(Sys::Send(m as u64)));
        let at = latency(c).max(s.conns[c].s2c_last);
        s.conns[c].s2c_last = at;
        s.push(at, EvK::S2C(c, m));
        return Ok(m as isize);
    }
}

fn latency(c: usize) -> Ns {
    let s = sim();
    let (l, j) = (s.specs[c].lat, s.specs[c].jitter);
    let x = if j > 0 { s.choose(1 << 16, |r| r.below(1 << 16) as u32) as u64 } else { 0 };
    s.now + l + (j as u128 * x as u128 >> 16) as u64
}

unsafe fn gather(v: *const iovec, n: usize) -> Vec<u8> {
    let mut out = vec![];
    for i in 0..n {
        let x = &*v.add(i);
        out.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    out
}

pub unsafe fn read(fd: c_int, b: *mut u8, n: usize) -> Option<R> {
    match sim().fds.get(&fd) {
        Some(&Fd::Conn(_)) => Some(recv(fd, b, n, 0)),
        Some(&Fd::File { .. }) => Some(file_read(fd, b, n)),
        Some(_) => Some(Err(libc::EINVAL)),
        None => None,
    }
}

pub unsafe fn readv(fd: c_int, v: *const iovec, n: usize) -> Option<R> {
    if n == 0 || !sim().fds.contains_key(&fd) {
        return None;
    }
    let x = &*v;
    read(fd, x.iov_base as *mut u8, x.iov_len)
}

pub unsafe fn write(fd: c_int, b: *const u8, n: usize) -> Option<R> {
    match sim().fds.get(&fd) {
        Some(&Fd::Conn(_)) => Some(send(fd, b, n)),
        Some(_) => Some(Err(libc::EBADF)),
        None if fd == 1 || fd == 2 => Some(Ok(n as isize)),
        None => None,
    }
}

pub unsafe fn writev(fd: c_int, v: *const iovec, n: usize) -> Option<R> {
    if fd == 1 || fd == 2 {
        return Some(Ok(gather(v, n).len() as isize));
    }
    if !sim().fds.contains_key(&fd) {
        return None;
    }
    let d = gather(v, n);
    write(fd, d.as_ptr(), d.len())
}

pub fn shutdown(fd: c_int, how: c_int) -> R {
    let c = conn_of(fd)?;
    tick();
    let s = sim();
    if s.conns[c].rx_rst {
        return Err(libc::ENOTCONN);
    }
    if how == libc::SHUT_RD {
        return Ok(0);
    }
    server_fin(c);
    s.record(What::Sys(Sys::Shutdown));
    Ok(0)
}

fn server_fin(c: usize) {
    let s = sim();
    if s.conns[c].shut.is_none() {
        let m = s.mark(s.conns[c].tx.len() as u64);
        s.conns[c].shut = Some(m);
        let at = latency(c).max(s.conns[c].s2c_last);
        s.conns[c].s2c_last = at;
        s.push(at, EvK::S2CFin(c));
    }
}

pub fn close(fd: c_int) -> Option<R> {
    let s = sim();
    match s.fds.remove(&fd) {
        Some(Fd::Conn(c)) => {
            s.conns[c].refs -= 1;
            if s.conns[c].refs == 0 {
                server_fin(c);
                let m = s.mark(s.conns[c].tx.len() as u64);
                s.conns[c].closed = Some(m);
                s.record(What::Sys(Sys::Close));
            }
            tick();
            Some(Ok(0))
        }
        Some(_) => {
            tick();
            Some(Ok(0))
        }
        None => None,
    }
}

pub fn fcntl(fd: c_int, cmd: c_int) -> Option<R> {
    let s = sim();
    if !s.fds.contains_key(&fd) {
        return None;
    }
    if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
        tick();
        return Some(match s.fds.get(&fd) {
            Some(&Fd::Conn(c)) => {
                if s.specs[c].dup_err {
                    s.fault("dup_error");
                    s.conns[c].faults += 1;
                    s.record(What::Sys(Sys::DupErr));
                    return Some(Err(libc::EMFILE));
                }
                s.conns[c].refs += 1;
                s.conns[c].fds_opened += 1;
                Ok(new_fd(s, Fd::Conn(c)) as isize)
            }
            Some(&Fd::Listener) => Ok(new_fd(s, Fd::Listener) as isize),
            _ => Err(libc::EBADF),
        });
    }
    Some(Ok(0))
}

pub fn ioctl(fd: c_int, _rq: usize) -> Option<R> {
    if sim().fds.contains_key(&fd) {
        Some(Ok(0))
    } else {
        None
    }
}

pub fn poll(_p: *mut libc::pollfd, _n: usize, _t: c_int) -> R {
    harness_error("unexpected poll");
    Err(libc::ENOSYS)
}

// ------------------------------------------------------------------ files

const ROOT: &[u8] = b"/simfs/";
/// stands for any directory
const DIR: usize = usize::MAX;

/// Looks a path up the way a kernel does (there are no links).
unsafe fn file_of(p: *const c_char) -> Result<usize, c_int> {
    let path = std::ffi::CStr::from_ptr(p).to_bytes();
    let s = sim();
    let mut at: Vec<&[u8]> = vec![];
    let mut file = None;
    let root = &ROOT[1..ROOT.len() - 1];
    let find = |at: &[&[u8]]| {
        if at.len() < 2 || at[0] != root {
            return (None, false);
        }
        let rel = at[1..].join(&b'/');
        let i = s.sc.files.iter().position(|f| f.exists && f.path.as_bytes() == &rel[..]);
        let dir = s.sc.files.iter().any(|f| f.path.as_bytes().starts_with(&rel) && f.path.as_bytes().get(rel.len()) == Some(&b'/'));
        (i, dir)
    };
    let mut err = None;
    for part in path.split(|&b| b == b'/').skip(1) {
        if file.is_some() && err.is_none() {
            err = Some(libc::ENOTDIR);
        }
        match part {
            b"" | b"." => {}
            b".." => {
                at.pop();
            }
            _ => {
                at.push(part);
                let (f, d) = find(&at);
                if f.is_some() {
                    file = f;
                } else if !d && at.len() > 1 && err.is_none() {
                    err = Some(libc::ENOENT);
                }
            }
        }
    }
    if !path.starts_with(b"/") || at.get(0) != Some(&root) {
        s.record(What::Sys(Sys::Escape(String::from_utf8_lossy(path).into_owned())));
        return Err(libc::ENOENT);
    }
    match (err, file) {
        (Some(e), _) => Err(e),
        (None, Some(i)) => Ok(i),
        (None, None) => Err(libc::EISDIR),
    }
}

pub unsafe fn open(p: *const c_char, fl: c_int) -> R {
    tick();
    let s = sim();
    if fl & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
        return Err(libc::EROFS);
    }
    let i = match file_of(p) {
        Ok(i) => i,
        Err(libc::EISDIR) => {
            s.record(What::Sys(Sys::FileOpen(0)));
            return Ok(new_fd(s, Fd::File { idx: DIR, pos: 0, eintr: false }) as isize);
        }
        Err(e) => {
            s.record(What::Sys(Sys::FileOpen(e)));
            return Err(e);
        }
    };
    if s.sc.files[i].eintr && !s.files[i].interrupted {
        s.files[i].interrupted = true;
        s.fault("open_eintr");
        return Err(libc::EINTR);
    }
    s.files[i].interrupted = false;
    let e = s.sc.files[i].open_err;
    s.record(What::Sys(Sys::FileOpen(e)));
    if e != 0 {
        s.fault("open_error");
        return Err(e);
    }
    if let Some(n) = s.sc.files[i].replaced {
        if s.files[i].opened >= n && s.files[i].replaced.is_none() && !s.fds.values().any(|f| matches!(*f, Fd::File { idx, .. } if idx == i)) {
            s.files[i].replaced = Some(s.rt());
            s.files[i].data = other_content(&s.files[i].data, s.sc.files[i].new_len);
            s.fault("file_replaced");
        }
    }
    s.files[i].opened += 1;
    let new = s.files[i].replaced.is_some();
    s.record(What::App(Ev::Opened(new)));
    Ok(new_fd(s, Fd::File { idx: i, pos: 0, eintr: false }) as isize)
}

unsafe fn file_read(fd: c_int, b: *mut u8, n: usize) -> R {
    tick();
    let s = sim();
    let (i, pos, ei) = match s.fds.get(&fd) {
        Some(&Fd::File { idx, pos, eintr }) => (idx, pos, eintr),
        _ => return Err(libc::EBADF),
    };
    if i == DIR {
        return Err(libc::EISDIR);
    }
    let f = &s.sc.files[i];
    if f.eintr && !ei {
        s.fault("file_eintr");
        s.fds.insert(fd, Fd::File { idx: i, pos, eintr: true });
        return Err(libc::EINTR);
    }
    if let Some((o, len)) = f.resize {
        if pos >= o && !s.files[i].resized {
            s.files[i].resized = true;
            s.fault("file_resized");
            let mut d = s.files[i].data.clone();
            d.resize(len as usize, b'+');
            s.files[i].data = d;
        }
    }
    let mut m = n;
    if let Some((o, _)) = f.resize {
        if pos < o {
            m = m.min((o - pos) as usize);
        }
    }
    if let Some((o, e)) = f.read_err {
        if pos >= o {
            s.fault("file_read_error");
            return Err(e);
        }
        m = m.min((o - pos) as usize);
    }
    if f.max_read > 0 {
        m = m.min(f.max_read as usize);
    }
    let d = &s.files[i].data;
    let p = (pos as usize).min(d.len());
    m = m.min(d.len() - p);
    std::ptr::copy_nonoverlapping(d.as_ptr().add(p), b, m);
    s.files[i].delivered += m as u64;
    s.fds.insert(fd, Fd::File { idx: i, pos: pos + m as u64, eintr: false });
    Ok(m as isize)
}

pub unsafe fn pread(fd: c_int, b: *mut u8, n: usize, o: i64) -> Option<R> {
    let s = sim();
    match s.fds.get(&fd) {
        Some(&Fd::File { idx, pos, eintr }) => {
            s.fds.insert(fd, Fd::File { idx, pos: o as u64, eintr });
            let r = file_read(fd, b, n);
            s.fds.insert(fd, Fd::File { idx, pos, eintr });
            Some(r)
        }
        Some(_) => Some(Err(libc::ESPIPE)),
        None => None,
    }
}

pub fn lseek(fd: c_int, o: i64, w: c_int) -> Option<R> {
    let s = sim();
    match s.fds.get(&fd) {
        Some(&Fd::File { idx, pos, eintr }) => {
            let base = match w {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => pos as i64,
                _ if idx == DIR => 4096,
                _ => s.files[idx].data.len() as i64,
            };
            let p = (base + o).max(0) as u64;
            s.fds.insert(fd, Fd::File { idx, pos: p, eintr });
            Some(Ok(p as isize))
        }
        Some(_) => Some(Err(libc::ESPIPE)),
        None => None,
    }
}

fn meta(idx: usize) -> Result<u64, c_int> {
    let s = sim();
    if idx == DIR {
        return Ok(4096);
    }
    let e = s.sc.files[idx].stat_err;
    if e != 0 {
        s.fault("stat_error");
        return Err(e);
    }
    if let Some(n) = s.sc.files[idx].huge {
        s.fault("file_huge");
        return Ok(n);
    }
    Ok(s.files[idx].data.len() as u64)
}

/// The time of the last change, and the number of the inode.
fn identity(idx: usize) -> (i64, i64, u64) {
    let s = sim();
    let t = if idx == DIR { None } else { s.files[idx].replaced }.unwrap_or(s.sc.clock.start as i128 * SEC as i128);
    ((t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64, idx.wrapping_add(2) as u64)
}

fn kind_of(i: usize) -> u32 {
    if i == DIR {
        libc::S_IFDIR | 0o755
    } else {
        libc::S_IFREG | 0o644
    }
}

pub unsafe fn fstat(fd: c_int, st: *mut libc::stat) -> Option<R> {
    let i = match sim().fds.get(&fd) {
        Some(&Fd::File { idx, .. }) => idx,
        Some(_) => return Some(Err(libc::EBADF)),
        None => return None,
    };
    tick();
    Some(meta(i).map(|n| {
        *st = std::mem::zeroed();
        (*st).st_mode = kind_of(i);
        (*st).st_size = n as i64;
        let (sec, ns, ino) = identity(i);
        (*st).st_mtime = sec;
        (*st).st_mtime_nsec = ns;
        (*st).st_ino = ino;
        0
    }))
}

pub unsafe fn stat(p: *const c_char, st: *mut libc::stat) -> R {
    tick();
    let i = match file_of(p) {
        Ok(i) => i,
        Err(libc::EISDIR) => DIR,
        Err(e) => return Err(e),
    };
    meta(i).map(|n| {
        *st = std::mem::zeroed();
        (*st).st_mode = kind_of(i);
        (*st).st_size = n as i64;
        let (sec, ns, ino) = identity(i);
        (*st).st_mtime = sec;
        (*st).st_mtime_nsec = ns;
        (*st).st_ino = ino;
        0
    })
}

pub unsafe fn statx(fd: c_int, p: *const c_char, st: *mut libc::statx) -> Option<R> {
    let empty = p.is_null() || *p == 0;
    let i = if empty {
        match sim().fds.get(&fd) {
            Some(&Fd::File { idx, .. }) => idx,
            Some(_) => return Some(Err(libc::EBADF)),
            None => return None,
        }
    } else {
        match file_of(p) {
            Ok(i) => i,
            Err(libc::EISDIR) => DIR,
            Err(e) => return Some(Err(e)),
        }
    };
    let r = meta(i);
    tick();
    Some(r.map(|n| {
        *st = std::mem::zeroed();
        (*st).stx_mask = libc::STATX_BASIC_STATS;
        (*st).stx_mode = kind_of(i) as u16;
        (*st).stx_size = n;
        (*st).stx_nlink = 1;
        let (sec, ns, ino) = identity(i);
        (*st).stx_mtime.tv_sec = sec;
        (*st).stx_mtime.tv_nsec = ns as u32;
        (*st).stx_ino = ino;
        0
    }))
}

// ------------------------------------------------------------------ network events and clients

fn handle(k: EvK) {
    let s = sim();
    match k {
        EvK::Timeout(t, g) => {
            if s.thrs[t].gen == g && s.thrs[t].st != St::Done && s.thrs[t].st != St::Runnable {
                wake(t);
                s.thrs[t].timed_out = true;
            }
        }
        EvK::Start(c) => {
            s.conns[c].started = true;
            s.conns[c].reading = true;
            s.conns[c].queued = true;
            s.backlog.push_back(c);
            let w: Vec<usize> = (0..s.thrs.len()).filter(|&i| s.thrs[i].st == St::Accept).collect();
            if !w.is_empty() {
                let i = s.pick(w.len());
                wake(w[i]);
            }
            client_run(c);
        }
        EvK::C2S(c, b) => {
            let k = &mut s.conns[c];
            // nothing is received after a reset that has overtaken it
            if (k.shut.is_some() && k.closed.is_some()) || k.rx_rst {
                return;
            }
            k.rx_total += b.len() as u64;
            k.rx.extend(b);
            let cum = k.rx_total;
            let m = s.mark(cum);
            s.conns[c].arrived.push(m);
            wake_all(St::Read(c));
        }
        EvK::C2SFin(c) => {
            if s.conns[c].rx_rst {
                return;
            }
            let m = s.mark(s.conns[c].rx_total);
            s.conns[c].rx_fin = true;
            s.conns[c].fin_at = Some(m);
            wake_all(St::Read(c));
        }
        EvK::C2SRst(c) => {
            let m = s.mark(s.conns[c].rx_total);
            let k = &mut s.conns[c];
            if k.rst_at.is_none() {
                k.rst_at = Some(m);
                k.rx_rst = true;
                // a reset also throws away what has not been read
                k.rx.clear();
            }
            wake_all(St::Read(c));
            wake_all(St::Write(c));
        }
        EvK::S2C(c, n) => {
            if s.conns[c].client_closed || s.conns[c].client_reset {
                // data for a closed socket: reset
                let k = &mut s.conns[c];
                if !k.client_reset {
                    k.client_reset = true;
                    let at = latency(c);
                    s.push(at, EvK::C2SRst(c));
                }
                return;
            }
            s.conns[c].delivered += n as u64;
            client_read(c, false);
        }
        EvK::S2CFin(c) => {
            s.conns[c].fin_to_client = true;
            client_read(c, false);
            client_run(c);
        }
        EvK::ClientTimer(c, g) => {
            if s.conns[c].timer_gen == g {
                s.conns[c].waiting_timer = false;
                s.conns[c].step += 1;
                client_run(c);
            }
        }
        EvK::ClientRead(c) => {
            s.conns[c].read_timer = false;
            client_read(c, true);
        }
    }
}

/// The client takes what has arrived.
fn client_read(c: usize, now: bool) {
    let s = sim();
    let spec = &s.specs[c];
    if !s.conns[c].reading || s.conns[c].client_closed || s.conns[c].client_reset {
        return;
    }
    let avail = s.conns[c].delivered - s.conns[c].read;
    if avail > 0 {
        if spec.read_every > 0 && !now {
            if !s.conns[c].read_timer {
                s.conns[c].read_timer = true;
                let at = s.now + spec.read_every;
                s.push(at, EvK::ClientRead(c));
            }
            return;
        }
        let mut n = avail;
        if spec.read_every > 0 {
            n = n.min(if spec.window > 0 { (spec.window as u64 / 2).max(1) } else { 512 });
        }
        if let Some(l) = spec.rst_after_rx {
            n = n.min(l.saturating_sub(s.conns[c].read)).max(if s.conns[c].read >= l { 0 } else { 1 });
        }
        s.conns[c].read += n;
        let cum = s.conns[c].read;
        let m = s.mark(cum);
        s.conns[c].read_marks.push(m);
        wake_all(St::Write(c));
        if let Some(l) = s.specs[c].rst_after_rx {
            if s.conns[c].read >= l {
                client_reset(c);
                return;
            }
        }
        client_parse(c);
        if s.conns[c].delivered > s.conns[c].read && s.specs[c].read_every > 0 && !s.conns[c].read_timer {
            s.conns[c].read_timer = true;
            let at = s.now + s.specs[c].read_every;
            s.push(at, EvK::ClientRead(c));
        }
        client_run(c);
    }
}

fn client_parse(c: usize) {
    let s = sim();
    let k = &mut s.conns[c];
    while !k.saw_bad {
        if let Some(ref mut w) = k.wait {
            if !w.over(&k.tx[..k.read as usize]) {
                break;
            }
        }
        match http::parse(&k.tx[..k.read as usize], k.parsed_to, false) {
            http::Parse::Resp(r) if r.complete => {
                k.parsed_to = r.end;
                k.wait = None;
                if r.status >= 200 {
                    k.final_responses += 1;
                    if r.says_close() || r.minor == 0 {
                        k.saw_close = true;
                    }
                }
            }
            http::Parse::Bad(_) => k.saw_bad = true,
            http::Parse::Resp(r) => {
                if k.wait.is_none() {
                    k.wait = Some(http::Wait::of(&r));
                }
                break;
            }
            _ => break,
        }
    }
}

fn client_reset(c: usize) {
    let s = sim();
    if s.conns[c].client_closed || s.conns[c].client_reset {
        return;
    }
    s.fault("client_reset");
    s.conns[c].faults += 1;
    s.conns[c].client_reset = true;
    s.conns[c].client_done = true;
    let at = latency(c).max(s.conns[c].c2s_last);
    s.push(at, EvK::C2SRst(c));
}

fn client_send(c: usize, bytes: Vec<u8>) {
    let s = sim();
    let key = if s.sc.cfg.https { 0x5A } else { 0 };
    let mut raw: Vec<u8> = vec![];
    if s.sc.cfg.https && !s.conns[c].hello_sent {
        s.conns[c].hello_sent = true;
        raw.extend_from_slice(if s.specs[c].tls_bad { b"NOPE" } else { b"HELO" });
        if s.specs[c].tls_bad {
            s.fault("tls_handshake_error");
            s.conns[c].faults += 1;
        }
    }
    raw.extend(bytes.iter().map(|b| b ^ key));
    s.conns[c].c2s_len += bytes.len() as u64;
    let mean = s.specs[c].frag;
    let mut pos = 0;
    while pos < raw.len() {
        let left = raw.len() - pos;
        let n = if mean == 0 {
            left
        } else {
            // 0: everything that is left
            let v = s.choose(1 << 20, |r| match r.below(4) {
                0 => 1 + r.below(4) as u32,
                _ => 1 + r.below(2 * mean as u64) as u32,
            }) as usize;
            if v == 0 {
                left
            } else {
                v.min(left)
            }
        };
        let at = latency(c).max(s.conns[c].c2s_last);
        s.conns[c].c2s_last = at;
        s.push(at, EvK::C2S(c, raw[pos..pos + n].to_vec()));
        pos += n;
    }
}

fn client_fin(c: usize) {
    let s = sim();
    if !s.conns[c].client_fin {
        s.conns[c].client_fin = true;
        let at = latency(c).max(s.conns[c].c2s_last);
        s.conns[c].c2s_last = at;
        s.push(at, EvK::C2SFin(c));
    }
}

fn client_run(c: usize) {
    let s = sim();
    loop {
        if s.conns[c].client_done || s.conns[c].waiting_timer {
            return;
        }
        if s.conns[c].client_reset {
            s.conns[c].client_done = true;
            return;
        }
        let everything_read = s.conns[c].read == s.conns[c].delivered;
        let server_gone = s.conns[c].fin_to_client && everything_read;
        let step = match s.specs[c].steps.get(s.conns[c].step) {
            Some(st) => st.clone(),
            None => {
                client_fin(c);
                s.conns[c].client_closed = true;
                s.conns[c].client_done = true;
                return;
            }
        };
        match step {
            Step::Send(a, b) => {
                if server_gone || s.conns[c].saw_close || s.conns[c].client_fin || s.conns[c].saw_bad {
                    s.conns[c].skipped = true;
                } else {
                    let mut all = vec![];
                    for i in a..b {
                        let (h, body) = s.specs[c].reqs[i].encode();
                        let start = s.conns[c].c2s_len + all.len() as u64;
                        let at = s.now;
                        s.conns[c].sent.push(Sent {
                            req: i,
                            start,
                            head_end: start + h.len() as u64,
                            end: start + (h.len() + body.len()) as u64,
                            sent_to: start + (h.len() + body.len()) as u64,
                            at,
                        });
                        all.extend(h);
                        all.extend(body);
                    }
                    client_send(c, all);
                }
            }
            Step::SendPart(i, n) => {
                if server_gone || s.conns[c].saw_close || s.conns[c].client_fin || s.conns[c].saw_bad {
                    s.conns[c].skipped = true;
                } else {
                    let (h, body) = s.specs[c].reqs[i].encode();
                    let start = s.conns[c].c2s_len;
                    let mut all = h.clone();
                    all.extend(&body);
                    let n = (n as usize).min(all.len());
                    let rest = all.split_off(n);
                    let at = s.now;
                    // what never comes
                    let claim = s.specs[c].reqs[i].claim.unwrap_or(0).min(1 << 62);
                    s.conns[c].sent.push(Sent {
                        req: i,
                        start,
                        head_end: start + h.len() as u64,
                        end: start + h.len() as u64 + (body.len() as u64).max(claim),
                        sent_to: start + n as u64,
                        at,
                    });
                    s.conns[c].part.insert(i, (0, rest));
                    client_send(c, all);
                }
            }
            Step::SendRest(i) => {
                if let Some((_, rest)) = s.conns[c].part.remove(&i) {
                    if !(server_gone || s.conns[c].saw_close && !s.conns[c].sent.iter().any(|x| x.req == i) || s.conns[c].client_fin || s.conns[c].saw_bad) {
                        let n = rest.len() as u64;
                        client_send(c, rest);
                        if let Some(x) = s.conns[c].sent.iter_mut().find(|x| x.req == i) {
                            x.sent_to += n;
                        }
                    } else {
                        s.conns[c].skipped = true;
                    }
                }
            }
            Step::Wait(n) => {
                if !(s.conns[c].final_responses >= n || server_gone || s.conns[c].saw_bad) {
                    return;
                }
            }
            Step::WaitClose => {
                if !server_gone {
                    return;
                }
            }
            Step::Pause(t) => {
                s.conns[c].waiting_timer = true;
                s.conns[c].timer_gen += 1;
                let g = s.conns[c].timer_gen;
                let at = s.now + t;
                s.push(at, EvK::ClientTimer(c, g));
                return;
            }
            Step::HalfClose => {
                client_fin(c);
            }
            Step::Close => {
                client_fin(c);
                s.conns[c].client_closed = true;
                s.conns[c].client_done = true;
                wake_all(St::Write(c));
                // whatever is still unread makes it a reset
                if s.conns[c].delivered > s.conns[c].read {
                    s.conns[c].client_reset = true;
                    let at = latency(c).max(s.conns[c].c2s_last);
                    s.push(at, EvK::C2SRst(c));
                }
                return;
            }
            Step::Reset => {
                client_reset(c);
                return;
            }
            Step::StopRead => {
                s.conns[c].reading = false;
                s.fault("client_stalls");
            }
            Step::StartRead => {
                s.conns[c].reading = true;
                s.conns[c].step += 1;
                client_read(c, false);
                continue;
            }
        }
        s.conns[c].step += 1;
    }
}

// ------------------------------------------------------------------ a run

fn app_log(ev: Ev) {
    if let Some(_g) = Guard::enter() {
        let s = sim();
        match ev {
            Ev::HStart(_) => {
                let c = s.cur;
                s.thrs[c].in_handler = true
            }
            Ev::HEnd | Ev::Panic(_) => {
                let c = s.cur;
                s.thrs[c].in_handler = false
            }
            _ => {}
        }
        s.record(What::App(ev));
    }
}

/// Runs a scenario to its end. Only one run per process.
pub fn run(sc: &'static Scenario, ch: Choices) -> &'static mut Sim {
    let mut specs = sc.conns.clone();
    let probe_first = specs.len();
    specs.extend(sc.probes.iter().cloned());
    let conns = specs.iter().map(|_| Conn::default()).collect();
    let s = Box::new(Sim {
        sc,
        specs,
        now: 0,
        seq: 0,
        thrs: vec![],
        cur: 0,
        events: BinaryHeap::new(),
        conns,
        backlog: VecDeque::new(),
        listening: false,
        bound: vec![],
        fds: BTreeMap::new(),
        next_fd: sc.fd_base,
        log: vec![],
        ch,
        hash_rng: Rng::new(sc.hash_seed),
        accepts: 0,
        files: sc.files.iter().map(|f| FileState { data: f.data.bytes(), resized: false, opened: 0, replaced: None, interrupted: false, delivered: 0 }).collect(),
        faults: BTreeMap::new(),
        switches: 0,
        edges: 0,
        syscalls: 0,
        preemptions: 0,
        trace: 0xcbf29ce484222325,
        stalls: vec![],
        phase: Phase::Main,
        probe_first,
        error: None,
        livelock: None,
        aborted: false,
        start_result: None,
        spawns: 0,
        steps_main: 0,
        end_main: 0,
        held: 0,
        probes_started: 0,
    });
    unsafe {
        SIM = Box::into_raw(s);
        EDGE_COUNT = 0;
        EDGE_LIMIT = MAX_EDGES;
    }
    set_log(app_log);
    std::panic::set_hook(Box::new(|info| {
        if let Some(_g) = Guard::enter() {
            let msg = if let Some(m) = info.payload().downcast_ref::<&str>() {
                m.to_string()
            } else if let Some(m) = info.payload().downcast_ref::<String>() {
                m.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map_or("?".into(), |l| format!("{}:{}", l.file(), l.line()));
            let s = sim();
            let c = s.cur;
            s.thrs[c].in_handler = false;
            s.record(What::Sys(Sys::Panic { msg, loc }));
        }
    }));
    set_countdown();
    extern "C" fn first(_: *mut c_void) -> *mut c_void {
        // (a panic is not a way to say that the server can't start)
        let sc = sim().sc;
        let r = std::panic::catch_unwind(|| simapp::start(sc)).unwrap_or_else(|_| Err("it panics".into()));
        if let Some(_g) = Guard::enter() {
            sim().start_result = Some(match r {
                Ok(ref l) => Ok(l.socket.to_string()),
                Err(ref e) => Err(e.clone()),
            });
        }
        std::mem::forget(r);
        std::ptr::null_mut()
    }
    unsafe {
        let s = sim();
        let id = new_thread(s);
        let st = Box::into_raw(Box::new(Start { tid: id, parker: &*sim().thrs[id].parker, f: first, arg: std::ptr::null_mut() }));
        let mut t: libc::pthread_t = 0;
        if libc::pthread_create(&mut t, std::ptr::null(), thread_main, st as *mut c_void) != 0 {
            s.error = Some("pthread_create".into());
            return s;
        }
        s.thrs[id].pthread = t as u64;
        s.cur = id;
        unpark(&s.thrs[id].parker);
        park(&DONE);
        let _ = std::panic::take_hook();
        sim().edges = EDGE_COUNT;
        sim()
    }
}
