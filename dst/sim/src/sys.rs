//! The seam: every libc entry point through which the server reaches threads, clocks, sockets,
//! files and randomness is defined here and takes precedence over libc's at link time. Outside
//! of a simulation (and inside the simulator itself) the calls go to the kernel unchanged.
use crate::core::{self, Guard};
use libc::{c_char, c_int, c_long, c_void, size_t, sockaddr, socklen_t, ssize_t, timespec};
use std::arch::asm;

#[inline(always)]
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r >= -4095 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

/// Simulated results: Ok(value) or Err(errno)
pub type R = Result<isize, c_int>;

unsafe fn sret(r: R) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

unsafe fn real(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    if p.is_null() {
        raw6(libc::SYS_exit_group, 97, 0, 0, 0, 0, 0);
    }
    p
}

// ------------------------------------------------------------------ threads

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = real(b"pthread_create\0") as usize;
    }
    let real: F = std::mem::transmute(REAL);
    match Guard::enter() {
        Some(_g) => core::thread_create(|f2, a2| real(t, attr, f2, a2), t, f, arg),
        None => real(t, attr, f, arg),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    if let Some(_g) = Guard::enter() {
        core::thread_join(t as u64);
    }
    let real: F = std::mem::transmute(real(b"pthread_join\0"));
    real(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(_g) = Guard::enter() {
        core::yield_now();
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, mask: *mut libc::cpu_set_t) -> c_int {
    if let Some(_g) = Guard::enter() {
        std::ptr::write_bytes(mask as *mut u8, 0, size);
        for i in 0..core::cpus() {
            *(mask as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = ret(raw6(libc::SYS_sched_getaffinity, pid as usize, size, mask as usize, 0, 0, 0));
    if r > 0 {
        0
    } else {
        r as c_int
    }
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if let Some(_g) = Guard::enter() {
        core::process_aborted();
    }
    raw6(libc::SYS_exit_group, 134, 0, 0, 0, 0, 0);
    loop {}
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(_g) = Guard::enter() {
            let op = (b as c_int) & 0x7f;
            return match op {
                0 | 9 => sret(core::futex_wait(
                    a,
                    c as u32,
                    if d == 0 { None } else { Some(*(d as *const timespec)) },
                    op == 9,
                    (b as c_int) & libc::FUTEX_CLOCK_REALTIME != 0,
                )) as c_long,
                1 | 10 => sret(core::futex_wake(a, c)) as c_long,
                _ => {
                    core::harness_error("unexpected futex operation");
                    -1
                }
            };
        }
    } else if n == libc::SYS_getrandom {
        if let Some(_g) = Guard::enter() {
            core::random(a as *mut u8, b);
            return b as c_long;
        }
    } else if let Some(_g) = Guard::enter() {
        if n != libc::SYS_gettid && n != libc::SYS_statx {
            core::harness_error(&format!("unexpected raw system call {}", n));
        }
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

// ------------------------------------------------------------------ time and randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if let Some(_g) = Guard::enter() {
        let (s, n) = core::clock(clk);
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if let Some(_g) = Guard::enter() {
        let (s, n) = core::clock(libc::CLOCK_REALTIME);
        (*tv).tv_sec = s;
        (*tv).tv_usec = n / 1000;
        return 0;
    }
    ret(raw6(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    if let Some(_g) = Guard::enter() {
        let (s, _) = core::clock(libc::CLOCK_REALTIME);
        if !t.is_null() {
            *t = s;
        }
        return s;
    }
    raw6(libc::SYS_time, t as usize, 0, 0, 0, 0, 0) as libc::time_t
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(_g) = Guard::enter() {
        core::sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(_g) = Guard::enter() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let (s, n) = core::clock(clk);
            core::sleep(t.saturating_sub(s as u64 * 1_000_000_000 + n as u64));
        } else {
            core::sleep(t);
        }
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if let Some(_g) = Guard::enter() {
        core::random(buf as *mut u8, len);
        return len as ssize_t;
    }
    ret(raw6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0))
}

// ------------------------------------------------------------------ sockets

macro_rules! seam {
    ($(fn $name:ident($($a:ident: $t:ty),*) -> $r:ty = $nr:expr, ($($x:expr),*), $sim:expr;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
                if let Some(_g) = Guard::enter() {
                    let r: Option<R> = $sim;
                    if let Some(r) = r {
                        return sret(r) as $r;
                    }
                }
                let args: [usize; 6] = [$($x),*];
                ret(raw6($nr, args[0], args[1], args[2], args[3], args[4], args[5])) as $r
            }
        )*
    }
}

seam! {
    fn socket(d: c_int, t: c_int, p: c_int) -> c_int = libc::SYS_socket, (d as usize, t as usize, p as usize, 0, 0, 0),
        Some(core::socket());
    fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int = libc::SYS_bind, (fd as usize, a as usize, l as usize, 0, 0, 0),
        Some(core::bind(fd, a));
    fn listen(fd: c_int, n: c_int) -> c_int = libc::SYS_listen, (fd as usize, n as usize, 0, 0, 0, 0),
        Some(core::listen(fd));
    fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int = libc::SYS_accept4,
        (fd as usize, a as usize, l as usize, flags as usize, 0, 0), Some(core::accept(fd, a, l));
    fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int = libc::SYS_accept,
        (fd as usize, a as usize, l as usize, 0, 0, 0), Some(core::accept(fd, a, l));
    fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int = libc::SYS_getsockname,
        (fd as usize, a as usize, l as usize, 0, 0, 0), Some(core::getsockname(fd, a, l));
    fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int = libc::SYS_getpeername,
        (fd as usize, a as usize, l as usize, 0, 0, 0), Some(core::getpeername(fd, a, l));
    fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int = libc::SYS_setsockopt,
        (fd as usize, lv as usize, o as usize, v as usize, l as usize, 0), Some(core::setsockopt(fd, lv, o, v as *const u8, l as usize));
    fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int = libc::SYS_getsockopt,
        (fd as usize, lv as usize, o as usize, v as usize, l as usize, 0), Some(core::getsockopt(fd, lv, o, v as *mut u8, l as *mut u32));
    fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t = libc::SYS_recvfrom,
        (fd as usize, b as usize, n, fl as usize, 0, 0), Some(core::recv(fd, b as *mut u8, n, fl));
    fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t = libc::SYS_recvfrom,
        (fd as usize, b as usize, n, fl as usize, a as usize, l as usize), Some(core::recv(fd, b as *mut u8, n, fl));
    fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t = libc::SYS_sendto,
        (fd as usize, b as usize, n, fl as usize, 0, 0), Some(core::send(fd, b as *const u8, n));
    fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t = libc::SYS_sendto,
        (fd as usize, b as usize, n, fl as usize, a as usize, l as usize), Some(core::send(fd, b as *const u8, n));
    fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t = libc::SYS_read,
        (fd as usize, b as usize, n, 0, 0, 0), core::read(fd, b as *mut u8, n);
    fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t = libc::SYS_write,
        (fd as usize, b as usize, n, 0, 0, 0), core::write(fd, b as *const u8, n);
    fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t = libc::SYS_writev,
        (fd as usize, v as usize, n as usize, 0, 0, 0), core::writev(fd, v, n as usize);
    fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t = libc::SYS_readv,
        (fd as usize, v as usize, n as usize, 0, 0, 0), core::readv(fd, v, n as usize);
    fn sendmsg(fd: c_int, m: *const libc::msghdr, fl: c_int) -> ssize_t = libc::SYS_sendmsg,
        (fd as usize, m as usize, fl as usize, 0, 0, 0), core::writev(fd, (*m).msg_iov, (*m).msg_iovlen as usize);
    fn shutdown(fd: c_int, how: c_int) -> c_int = libc::SYS_shutdown, (fd as usize, how as usize, 0, 0, 0, 0),
        Some(core::shutdown(fd, how));
    fn close(fd: c_int) -> c_int = libc::SYS_close, (fd as usize, 0, 0, 0, 0, 0), core::close(fd);
    fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int = libc::SYS_fcntl, (fd as usize, cmd as usize, arg, 0, 0, 0),
        core::fcntl(fd, cmd);
    fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int = libc::SYS_fcntl, (fd as usize, cmd as usize, arg, 0, 0, 0),
        core::fcntl(fd, cmd);
    fn dup(fd: c_int) -> c_int = libc::SYS_dup, (fd as usize, 0, 0, 0, 0, 0), core::fcntl(fd, libc::F_DUPFD_CLOEXEC);
    fn ioctl(fd: c_int, rq: usize, arg: usize) -> c_int = libc::SYS_ioctl, (fd as usize, rq, arg, 0, 0, 0), core::ioctl(fd, rq);
    fn poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int = libc::SYS_poll, (p as usize, n as usize, t as usize, 0, 0, 0),
        Some(core::poll(p, n as usize, t));
    fn open64(p: *const c_char, fl: c_int, m: libc::mode_t) -> c_int = libc::SYS_open, (p as usize, fl as usize, m as usize, 0, 0, 0),
        Some(core::open(p, fl));
    fn open(p: *const c_char, fl: c_int, m: libc::mode_t) -> c_int = libc::SYS_open, (p as usize, fl as usize, m as usize, 0, 0, 0),
        Some(core::open(p, fl));
    fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 = libc::SYS_lseek, (fd as usize, o as usize, w as usize, 0, 0, 0), core::lseek(fd, o, w);
    fn lseek(fd: c_int, o: i64, w: c_int) -> i64 = libc::SYS_lseek, (fd as usize, o as usize, w as usize, 0, 0, 0), core::lseek(fd, o, w);
    fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: i64) -> ssize_t = libc::SYS_pread64, (fd as usize, b as usize, n, o as usize, 0, 0),
        core::pread(fd, b as *mut u8, n, o);
    fn fstat64(fd: c_int, s: *mut libc::stat) -> c_int = libc::SYS_fstat, (fd as usize, s as usize, 0, 0, 0, 0), core::fstat(fd, s);
    fn fstat(fd: c_int, s: *mut libc::stat) -> c_int = libc::SYS_fstat, (fd as usize, s as usize, 0, 0, 0, 0), core::fstat(fd, s);
    fn stat64(p: *const c_char, s: *mut libc::stat) -> c_int = libc::SYS_stat, (p as usize, s as usize, 0, 0, 0, 0), Some(core::stat(p, s));
    fn stat(p: *const c_char, s: *mut libc::stat) -> c_int = libc::SYS_stat, (p as usize, s as usize, 0, 0, 0, 0), Some(core::stat(p, s));
    fn lstat64(p: *const c_char, s: *mut libc::stat) -> c_int = libc::SYS_lstat, (p as usize, s as usize, 0, 0, 0, 0), Some(core::stat(p, s));
    fn statx(fd: c_int, p: *const c_char, fl: c_int, m: u32, s: *mut libc::statx) -> c_int = libc::SYS_statx,
        (fd as usize, p as usize, fl as usize, m as usize, s as usize, 0), core::statx(fd, p, s);
}

// ------------------------------------------------------------------ instrumentation

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    (*(&raw mut core::GUARDS)).push((a as usize, b as usize));
    let mut p = a;
    while p < b {
        core::EDGES += 1;
        *p = core::EDGES;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    core::edge(*g);
}

macro_rules! mem {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_p: *const u8) {
            core::edge(0);
        }
    )*}
}

mem! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
