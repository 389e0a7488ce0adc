//! Deterministic simulator, preloaded into the real program. It replaces the C
//! library entry points through which the program meets threads, time,
//! randomness, the network, files, standard streams and signals.
#![allow(static_mut_refs, clippy::missing_safety_doc, non_upper_case_globals, invalid_runtime_symbol_definitions)]
#[macro_use]
pub mod core;
pub mod net;
pub mod raw;

use crate::core::*;
use crate::net as sn;
use libc::*;
use proto::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ---------------------------------------------------------------- start and end

static mut KEY: pthread_key_t = 0;

extern "C" {
    fn on_exit(f: extern "C" fn(c_int, *mut c_void), arg: *mut c_void) -> c_int;
}

extern "C" fn at_exit(status: c_int, _arg: *mut c_void) {
    if active() {
        let _g = In::enter();
        sn::drain();
        ev!("HELD {}", unsafe { FILES.values().filter(|f| f.inroot).count() });
        ev!("END exit {}", status);
    }
}

extern "C" fn tls_last(v: *mut c_void) {
    // run after every other thread-local destructor
    let round = v as usize;
    unsafe {
        if round < 4 {
            pthread_setspecific(KEY, (round + 1) as *const c_void);
            return;
        }
        if !SIM.is_null() && TID.with(|t| t.get()) > 0 {
            DEPTH.with(|d| d.set(d.get() + 1));
            thread_end();
            TID.with(|t| t.set(-1));
        }
    }
}

static STARTING: AtomicBool = AtomicBool::new(false);

unsafe extern "C" fn ctor() {
    DEPTH.with(|d| d.set(1));
    STARTING.store(true, Ordering::Relaxed);
    init();
    STARTING.store(false, Ordering::Relaxed);
    if !SIM.is_null() {
        pthread_key_create(&raw mut KEY, Some(tls_last));
        on_exit(at_exit, std::ptr::null_mut());
    }
    DEPTH.with(|d| d.set(0));
}
#[used]
#[link_section = ".init_array"]
static CTOR: unsafe extern "C" fn() = ctor;

unsafe fn real(slot: &AtomicUsize, name: &std::ffi::CStr) -> usize {
    let p = slot.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr()) as usize;
    slot.store(p, Ordering::Relaxed);
    p
}
macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(real(&SLOT, $name))
    }};
}

#[no_mangle]
pub extern "C" fn amsim_atomic_point() {
    if active() {
        let _g = In::enter();
        point(false);
    }
}

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}

extern "C" fn thread_main(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    TID.with(|t| t.set(st.tid as i32));
    DEPTH.with(|d| d.set(1));
    let park = s().threads[st.tid].park;
    wait_token(park);
    ev!("START");
    let (f, arg) = (st.f, st.arg);
    drop(st);
    unsafe { pthread_setspecific(KEY, 1 as *const c_void) };
    DEPTH.with(|d| d.set(0));
    f(arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let create = real!(c"pthread_create", fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int);
    if !active() {
        return create(out, attr, f, arg);
    }
    let _g = In::enter();
    let tid = new_thread();
    let st = Box::into_raw(Box::new(Start { f, arg, tid }));
    let mut t: pthread_t = 0;
    let rc = create(&mut t, attr, thread_main, st as *mut c_void);
    if rc != 0 {
        ev!("HARNESS pthread_create {}", rc);
        raw::exit_group(EXIT_HARNESS);
    }
    *out = t;
    s().threads[tid].pthread = t as u64;
    ev!("SPAWN {}", tid);
    let me = s().cur as u32;
    let late = if me == 0 { choose(me, K::SpawnDelay, 4000) } else { 0 };
    if late > 0 {
        hold(tid, s().now + late as u64 * MS);
        ev!("SDELAY {}", tid);
        point(true);
    } else if choose(me, K::SpawnOrder, 2) == 1 {
        hand_over(tid);
    } else {
        point(true);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let join = real!(c"pthread_join", fn(pthread_t, *mut *mut c_void) -> c_int);
    if active() {
        let _g = In::enter();
        point(true);
        let tid = (0..s().threads.len()).rev().find(|i| s().threads[*i].pthread == t as u64);
        if let Some(tid) = tid {
            while s().threads[tid].state != State::Finished {
                block(Wait::Join(tid), FOREVER);
            }
        }
        return join(t, out);
    }
    join(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _g = In::enter();
        give_way();
        return 0;
    }
    raw::sys3(SYS_sched_yield, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if !SIM.is_null() {
        return 1000 + TID.with(|t| t.get());
    }
    raw::sys3(SYS_gettid, 0, 0, 0) as pid_t
}

unsafe fn futex(addr: *const u32, op: c_int, val: u32, ts: *const timespec) -> i64 {
    let cmd = op & 0x7f & !FUTEX_PRIVATE_FLAG & !FUTEX_CLOCK_REALTIME;
    let _g = In::enter();
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            point(true);
            if std::ptr::read_volatile(addr) != val {
                return -EAGAIN as i64;
            }
            let me = s().cur;
            if choose(me as u32, K::Spurious, 2) == 1 {
                return 0;
            }
            let dl = if ts.is_null() {
                FOREVER
            } else {
                let d = nanos(&*ts);
                if cmd == FUTEX_WAIT {
                    s().now.saturating_add(d)
                } else if op & FUTEX_CLOCK_REALTIME != 0 {
                    s().now.saturating_add(d.saturating_sub(wall_now()))
                } else {
                    d
                }
            };
            if dl <= s().now {
                return -ETIMEDOUT as i64;
            }
            if block(Wait::Futex(addr as usize, 0), dl) {
                -ETIMEDOUT as i64
            } else {
                0
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let mut woken = 0;
            let me = s().cur as u32;
            while woken < val as i64 {
                let list: Vec<usize> = s()
                    .waiters
                    .iter()
                    .filter(|(_, t)| s().threads[*t].state == State::Blocked(Wait::Futex(addr as usize, 0)))
                    .map(|(_, t)| *t)
                    .collect();
                if list.is_empty() {
                    break;
                }
                let k = choose(me, K::WakeOrder, list.len() as u32) as usize;
                make_runnable(list[k]);
                woken += 1;
            }
            point(true);
            woken
        }
        _ => -ENOSYS as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(num: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if active() {
        match num {
            SYS_futex => return raw::ret(futex(a as *const u32, b as c_int, c as u32, d as *const timespec)),
            SYS_getrandom => {
                random(a as *mut u8, b as usize);
                return b as c_long;
            }
            SYS_gettid => return gettid() as c_long,
            SYS_clock_gettime => return clock_gettime(a as clockid_t, b as *mut timespec) as c_long,
            _ => {}
        }
    } else if num == SYS_getrandom && (nested() || STARTING.load(Ordering::Relaxed)) {
        random(a as *mut u8, b as usize);
        return b as c_long;
    }
    raw::ret(raw::sys6(num, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- randomness

unsafe fn random(out: *mut u8, len: usize) {
    if STARTING.load(Ordering::Relaxed) {
        // keys of the simulated servers are set up before there is a simulation
        static DRAWN: AtomicUsize = AtomicUsize::new(0);
        for i in 0..len {
            *out.add(i) = mix(0x5eed + DRAWN.fetch_add(1, Ordering::Relaxed) as u64) as u8;
        }
        return;
    }
    let (scope, ctr) = if active() {
        let me = s().cur;
        s().threads[me].rand += 1;
        (me as u32, s().threads[me].rand)
    } else {
        s().world_rand += 1;
        (90_000, s().world_rand)
    };
    let base = keyed(s().plan.seed, scope, 240, ctr);
    for i in 0..len {
        *out.add(i) = (mix(base.wrapping_add((i / 8) as u64)) >> (8 * (i % 8))) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if STARTING.load(Ordering::Relaxed) || !SIM.is_null() && TID.with(|t| t.get()) >= 0 {
        random(buf as *mut u8, len);
        return len as ssize_t;
    }
    raw::ret(raw::sys3(SYS_getrandom, buf as u64, len as u64, flags as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    getrandom(buf, len, 0);
    0
}

// ---------------------------------------------------------------- time

fn nanos(ts: &timespec) -> u64 {
    if ts.tv_sec < 0 {
        return 0;
    }
    (ts.tv_sec as u64).saturating_mul(SEC).saturating_add(ts.tv_nsec as u64)
}
fn wall_now() -> u64 {
    (WALL_BASE as i64 + (s().now - MONO_BASE) as i64 + s().wall).max(0) as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: clockid_t, out: *mut timespec) -> c_int {
    if SIM.is_null() || TID.with(|t| t.get()) < 0 {
        return raw::ret(raw::sys3(SYS_clock_gettime, clock as u64, out as u64, 0)) as c_int;
    }
    let act = active();
    let _g = In::enter();
    if act {
        point(true);
    }
    let t = match clock {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE | CLOCK_TAI => wall_now(),
        _ => s().now,
    };
    (*out).tv_sec = (t / SEC) as i64;
    (*out).tv_nsec = (t % SEC) as i64;
    if act {
        ev!("CLK {} {}", clock, t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(out: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*out).tv_sec = ts.tv_sec;
    (*out).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

unsafe fn sleep_until(deadline: u64, rem: *mut timespec) -> c_int {
    let _g = In::enter();
    point(true);
    if deadline <= s().now {
        return 0;
    }
    block(Wait::Sleep, deadline);
    let me = s().cur;
    if s().threads[me].interrupted {
        let left = deadline.saturating_sub(s().now);
        if !rem.is_null() {
            (*rem).tv_sec = (left / SEC) as i64;
            (*rem).tv_nsec = (left % SEC) as i64;
        }
        return EINTR;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        let d = nanos(&*req);
        let dl = if flags & TIMER_ABSTIME != 0 {
            if clock == CLOCK_REALTIME {
                s().now.saturating_add(d.saturating_sub(wall_now()))
            } else {
                d
            }
        } else {
            s().now.saturating_add(d)
        };
        return sleep_until(dl, if flags & TIMER_ABSTIME != 0 { std::ptr::null_mut() } else { rem });
    }
    -raw::sys6(SYS_clock_nanosleep, clock as u64, flags as u64, req as u64, rem as u64, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let e = clock_nanosleep(CLOCK_MONOTONIC, 0, req, rem);
    if e != 0 {
        raw::set_errno(e);
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: us as i64 / 1_000_000, tv_nsec: (us as i64 % 1_000_000) * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn sleep(secs: c_uint) -> c_uint {
    let ts = timespec { tv_sec: secs as i64, tv_nsec: 0 };
    nanosleep(&ts, std::ptr::null_mut());
    0
}
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    if active() {
        let _g = In::enter();
        block(Wait::Sleep, FOREVER);
        raw::set_errno(EINTR);
        return -1;
    }
    raw::ret(raw::sys3(SYS_pause, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- semaphores and signals

#[no_mangle]
pub unsafe extern "C" fn sem_init(sem: *mut sem_t, pshared: c_int, value: c_uint) -> c_int {
    if !SIM.is_null() {
        s().sems.insert(sem as usize, value);
        return 0;
    }
    real!(c"sem_init", fn(*mut sem_t, c_int, c_uint) -> c_int)(sem, pshared, value)
}
#[no_mangle]
pub unsafe extern "C" fn sem_post(sem: *mut sem_t) -> c_int {
    if !SIM.is_null() {
        let act = active();
        let _g = In::enter();
        *s().sems.entry(sem as usize).or_insert(0) += 1;
        wake(Wait::Sem(sem as usize));
        if act {
            point(true);
        }
        return 0;
    }
    real!(c"sem_post", fn(*mut sem_t) -> c_int)(sem)
}
#[no_mangle]
pub unsafe extern "C" fn sem_wait(sem: *mut sem_t) -> c_int {
    if active() {
        let _g = In::enter();
        point(true);
        loop {
            let v = s().sems.entry(sem as usize).or_insert(0);
            if *v > 0 {
                *v -= 1;
                return 0;
            }
            block(Wait::Sem(sem as usize), FOREVER);
        }
    }
    real!(c"sem_wait", fn(*mut sem_t) -> c_int)(sem)
}
#[no_mangle]
pub unsafe extern "C" fn sem_destroy(sem: *mut sem_t) -> c_int {
    if !SIM.is_null() {
        s().sems.remove(&(sem as usize));
        return 0;
    }
    real!(c"sem_destroy", fn(*mut sem_t) -> c_int)(sem)
}

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, act: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if active() && sig == SIGINT {
        let _g = In::enter();
        if !old.is_null() {
            std::ptr::write_bytes(old as *mut u8, 0, std::mem::size_of::<libc::sigaction>());
            (*old).sa_sigaction = s().sigint_handler;
        }
        if !act.is_null() {
            s().sigint_handler = (*act).sa_sigaction;
            ev!("HANDLER {}", ((*act).sa_sigaction > 1) as u8);
            point(true);
        }
        return 0;
    }
    real!(c"sigaction", fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(sig, act, old)
}
#[no_mangle]
pub unsafe extern "C" fn signal(sig: c_int, h: sighandler_t) -> sighandler_t {
    if active() && sig == SIGINT {
        let _g = In::enter();
        let old = s().sigint_handler;
        s().sigint_handler = h;
        ev!("HANDLER {}", (h > 1) as u8);
        point(true);
        return old;
    }
    real!(c"signal", fn(c_int, sighandler_t) -> sighandler_t)(sig, h)
}

// ---------------------------------------------------------------- sockets

fn is_sock(fd: c_int) -> Option<usize> {
    if unsafe { SIM.is_null() } || TID.with(|t| t.get()) < 0 {
        return None;
    }
    sn::sock_of(fd)
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, protocol: c_int) -> c_int {
    if active() && (domain == AF_INET || domain == AF_INET6) && ty & 0xf == SOCK_STREAM {
        let _g = In::enter();
        point(true);
        return raw::ret(sn::socket(domain == AF_INET6, ty & SOCK_NONBLOCK != 0)) as c_int;
    }
    raw::ret(raw::sys3(SYS_socket, domain as u64, ty as u64, protocol as u64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    if let Some(k) = is_sock(fd) {
        let _g = In::enter();
        point(true);
        return raw::ret(match sn::parse_addr(addr) {
            Some((ip, port)) => sn::connect(k, ip, port),
            None => -EAFNOSUPPORT as i64,
        }) as c_int;
    }
    raw::ret(raw::sys3(SYS_connect, fd as u64, addr as u64, len as u64)) as c_int
}

unsafe fn do_send(k: usize, data: &[u8], flags: c_int) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    if choose(me, K::SockEintr, 2) == 1 {
        return -EINTR as i64;
    }
    sn::send(k, data, flags & MSG_DONTWAIT != 0)
}
unsafe fn do_recv(k: usize, out: &mut [u8], flags: c_int) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    if choose(me, K::SockEintr, 2) == 1 {
        return -EINTR as i64;
    }
    sn::recv(k, out, flags & MSG_PEEK != 0, flags & MSG_DONTWAIT != 0)
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    sendto(fd, buf, len, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: size_t, flags: c_int, addr: *const sockaddr, alen: socklen_t) -> ssize_t {
    if let Some(k) = is_sock(fd) {
        return raw::ret(do_send(k, std::slice::from_raw_parts(buf as *const u8, len), flags)) as ssize_t;
    }
    raw::ret(raw::sys6(SYS_sendto, fd as u64, buf as u64, len as u64, flags as u64, addr as u64, alen as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int, addr: *mut sockaddr, alen: *mut socklen_t) -> ssize_t {
    if let Some(k) = is_sock(fd) {
        return raw::ret(do_recv(k, std::slice::from_raw_parts_mut(buf as *mut u8, len), flags)) as ssize_t;
    }
    raw::ret(raw::sys6(SYS_recvfrom, fd as u64, buf as u64, len as u64, flags as u64, addr as u64, alen as u64)) as ssize_t
}
unsafe fn gather(iov: *const iovec, cnt: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for i in 0..cnt {
        let x = &*iov.add(i);
        if x.iov_len > 0 {
            v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
    }
    v
}
unsafe fn scatter(iov: *const iovec, cnt: usize, data: &[u8]) {
    let mut at = 0;
    for i in 0..cnt {
        let x = &*iov.add(i);
        let m = x.iov_len.min(data.len() - at);
        std::ptr::copy_nonoverlapping(data[at..].as_ptr(), x.iov_base as *mut u8, m);
        at += m;
    }
}
unsafe fn total(iov: *const iovec, cnt: usize) -> usize {
    (0..cnt).map(|i| (*iov.add(i)).iov_len).sum()
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const msghdr, flags: c_int) -> ssize_t {
    if let Some(k) = is_sock(fd) {
        let v = {
            let _g = In::enter();
            gather((*msg).msg_iov, (*msg).msg_iovlen)
        };
        return raw::ret(do_send(k, &v, flags)) as ssize_t;
    }
    raw::ret(raw::sys3(SYS_sendmsg, fd as u64, msg as u64, flags as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, msg: *mut msghdr, flags: c_int) -> ssize_t {
    if let Some(k) = is_sock(fd) {
        let mut v = vec![0u8; total((*msg).msg_iov, (*msg).msg_iovlen)];
        let r = do_recv(k, &mut v, flags);
        if r > 0 {
            scatter((*msg).msg_iov, (*msg).msg_iovlen, &v[..r as usize]);
        }
        return raw::ret(r) as ssize_t;
    }
    raw::ret(raw::sys3(SYS_recvmsg, fd as u64, msg as u64, flags as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if let Some(k) = is_sock(fd) {
        let _g = In::enter();
        point(true);
        let c = &mut sn::n().socks[k];
        if how != SHUT_RD {
            c.wr_shut = true;
        }
        if how != SHUT_WR {
            c.rx_fin = true;
        }
        ev!("SHUTDOWN {} {}", c.scope, how);
        return 0;
    }
    raw::ret(raw::sys3(SYS_shutdown, fd as u64, how as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if let Some(k) = is_sock(fd) {
        let c = &mut sn::n().socks[k];
        if level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) {
            let t = if name == SO_RCVTIMEO { c.rcvtimeo } else { c.sndtimeo };
            *(val as *mut timeval) = timeval { tv_sec: (t / SEC) as i64, tv_usec: (t % SEC / 1000) as i64 };
            return 0;
        }
        *(val as *mut c_int) = match (level, name) {
            (SOL_SOCKET, SO_ERROR) => std::mem::take(&mut c.so_error),
            (SOL_SOCKET, SO_TYPE) => SOCK_STREAM,
            _ => 0,
        };
        *len = 4;
        return 0;
    }
    raw::ret(raw::sys6(SYS_getsockopt, fd as u64, level as u64, name as u64, val as u64, len as u64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if let Some(k) = is_sock(fd) {
        let c = &mut sn::n().socks[k];
        if level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) {
            let t = &*(val as *const timeval);
            let d = t.tv_sec as u64 * SEC + t.tv_usec as u64 * 1000;
            if name == SO_RCVTIMEO {
                c.rcvtimeo = d
            } else {
                c.sndtimeo = d
            }
        }
        return 0;
    }
    raw::ret(raw::sys6(SYS_setsockopt, fd as u64, level as u64, name as u64, val as u64, len as u64, 0)) as c_int
}
unsafe fn name_out(ip: std::net::IpAddr, port: u16, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let mut st: sockaddr_storage = std::mem::zeroed();
    let m = sn::fill_addr(ip, port, &mut st);
    let m2 = m.min(*len);
    std::ptr::copy_nonoverlapping(&st as *const _ as *const u8, addr as *mut u8, m2 as usize);
    *len = m;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if let Some(k) = is_sock(fd) {
        return match sn::n().socks[k].peer {
            Some((ip, port)) if sn::n().socks[k].st == sn::St::Connected => name_out(ip, port, addr, len),
            _ => raw::fail(ENOTCONN) as c_int,
        };
    }
    raw::ret(raw::sys3(SYS_getpeername, fd as u64, addr as u64, len as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if let Some(k) = is_sock(fd) {
        let ip: std::net::IpAddr = if sn::n().socks[k].v6 { "fd00::1".parse().unwrap() } else { "10.0.0.1".parse().unwrap() };
        return name_out(ip, 40_000 + (k % 20_000) as u16, addr, len);
    }
    raw::ret(raw::sys3(SYS_getsockname, fd as u64, addr as u64, len as u64)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, cnt: nfds_t, timeout: c_int) -> c_int {
    if !active() {
        return raw::ret(raw::sys3(SYS_poll, fds as u64, cnt as u64, timeout as u64)) as c_int;
    }
    let _g = In::enter();
    point(true);
    let dl = if timeout < 0 { FOREVER } else { s().now + timeout as u64 * MS };
    loop {
        let mut hits = 0;
        for i in 0..cnt as usize {
            let p = &mut *fds.add(i);
            p.revents = 0;
            if p.fd < 0 {
                continue;
            }
            let r = if let Some(k) = sn::sock_of(p.fd) {
                sn::ready(k)
            } else if p.fd == 0 {
                if s().stdin_eof || !s().stdin.is_empty() {
                    POLLIN
                } else {
                    0
                }
            } else {
                POLLOUT
            };
            p.revents = r & (p.events | POLLERR | POLLHUP);
            if p.revents != 0 {
                hits += 1;
            }
        }
        if hits > 0 || dl <= s().now {
            return hits;
        }
        if block(Wait::Poll, dl) {
            // deadline: one last look
            continue;
        }
        let me = s().cur;
        if s().threads[me].interrupted {
            raw::set_errno(EINTR);
            return -1;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut pollfd, cnt: nfds_t, ts: *const timespec, _mask: *const sigset_t) -> c_int {
    let timeout = if ts.is_null() { -1 } else { (nanos(&*ts) / MS).min(i32::MAX as u64) as c_int };
    poll(fds, cnt, timeout)
}

#[repr(C)]
struct AiNode {
    ai: addrinfo,
    st: sockaddr_storage,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, service: *const c_char, hints: *const addrinfo, res: *mut *mut addrinfo) -> c_int {
    if !active() || node.is_null() {
        return real!(c"getaddrinfo", fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int)(node, service, hints, res);
    }
    let _g = In::enter();
    point(true);
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().to_string();
    let port: u16 = if service.is_null() { 0 } else { std::ffi::CStr::from_ptr(service).to_str().ok().and_then(|x| x.parse().ok()).unwrap_or(0) };
    let family = if hints.is_null() { AF_UNSPEC } else { (*hints).ai_family };
    match sn::resolve(&name) {
        Err(e) => e,
        Ok(ips) => {
            let mut head: *mut addrinfo = std::ptr::null_mut();
            let mut tail: *mut addrinfo = std::ptr::null_mut();
            for ip in ips {
                if (family == AF_INET && ip.is_ipv6()) || (family == AF_INET6 && ip.is_ipv4()) {
                    continue;
                }
                let b = Box::into_raw(Box::new(AiNode { ai: std::mem::zeroed(), st: std::mem::zeroed() }));
                let len = sn::fill_addr(ip, port, &mut (*b).st);
                (*b).ai.ai_family = if ip.is_ipv6() { AF_INET6 } else { AF_INET };
                (*b).ai.ai_socktype = SOCK_STREAM;
                (*b).ai.ai_protocol = IPPROTO_TCP;
                (*b).ai.ai_addrlen = len;
                (*b).ai.ai_addr = &mut (*b).st as *mut _ as *mut sockaddr;
                if head.is_null() {
                    head = b as *mut addrinfo;
                } else {
                    (*tail).ai_next = b as *mut addrinfo;
                }
                tail = b as *mut addrinfo;
            }
            if head.is_null() {
                return EAI_NONAME;
            }
            *res = head;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut p: *mut addrinfo) {
    if SIM.is_null() {
        return real!(c"freeaddrinfo", fn(*mut addrinfo) -> ())(p);
    }
    while !p.is_null() {
        let next = (*p).ai_next;
        drop(Box::from_raw(p as *mut AiNode));
        p = next;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}

// ---------------------------------------------------------------- files and streams

struct FileInfo {
    path: String,
    wfault: bool,
    rfault: bool,
    wlog: bool,
    inroot: bool,
}
static mut FILES: BTreeMap<i32, FileInfo> = BTreeMap::new();

/// Disk space: how many bytes of a write fit, or the error.
unsafe fn file_write(fd: c_int, data: &[u8], off: Option<i64>) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    let (fault, log) = match FILES.get(&fd) {
        Some(f) => (f.wfault, f.wlog),
        None => (false, false),
    };
    let mut take = data.len();
    let mut err = 0;
    if fault && take > 0 {
        if s().disk_dead != 0 {
            err = s().disk_dead;
        } else if choose(me, K::FileEintr, 2) == 1 {
            err = EINTR;
        } else {
            if choose(me, K::KillWrite, 2) == 1 {
                let take = keyed(s().plan.seed, me, 213, s().seq as u32) % (take as u64 + 1);
                let r = match off {
                    Some(o) => raw::sys6(SYS_pwrite64, fd as u64, data.as_ptr() as u64, take, o as u64, 0, 0),
                    None => raw::sys3(SYS_write, fd as u64, data.as_ptr() as u64, take),
                };
                if log {
                    ev!("FWRITE {} {} {}", FILES.get(&fd).unwrap().path, data.len(), r);
                }
                ev!("END killed");
                raw::exit_group(EXIT_KILLED)
            }
            let v = choose(me, K::FileWriteErr, 5);
            match v {
                1 => err = EIO,
                2 => {
                    s().disk_dead = ENOSPC;
                    take = (keyed(s().plan.seed, me, 210, s().seq as u32) % (take as u64 + 1)) as usize;
                    if take == 0 {
                        err = ENOSPC;
                    }
                }
                3 => {
                    s().disk_dead = EIO;
                    err = EIO;
                }
                4 => err = ENOSPC,
                _ => {}
            }
            if err == 0 && take > 1 && choose(me, K::FileShortWrite, 2) == 1 {
                take = 1 + (keyed(s().plan.seed, me, 211, s().seq as u32) % (take as u64 - 1)) as usize;
            }
            if err == 0 && s().plan.fs.capacity != u64::MAX {
                let left = s().plan.fs.capacity.saturating_sub(s().disk_used);
                if left == 0 {
                    err = ENOSPC;
                } else {
                    take = take.min(left as usize);
                }
            }
        }
    }
    let r = if err != 0 {
        -err as i64
    } else {
        let r = match off {
            Some(o) => raw::sys6(SYS_pwrite64, fd as u64, data.as_ptr() as u64, take as u64, o as u64, 0, 0),
            None => raw::sys3(SYS_write, fd as u64, data.as_ptr() as u64, take as u64),
        };
        if r > 0 && fault {
            s().disk_used += r as u64;
        }
        r
    };
    if log {
        ev!("FWRITE {} {} {}", FILES.get(&fd).unwrap().path, data.len(), r);
    }
    r
}

unsafe fn stream_write(fd: c_int, data: &[u8]) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    let mut take = data.len();
    if take > 0 {
        if choose(me, K::OutEintr, 2) == 1 {
            return -EINTR as i64;
        }
        if take > 1 && choose(me, K::OutShort, 2) == 1 {
            take = 1 + (keyed(s().plan.seed, me, 212, s().seq as u32) % (take as u64 - 1)) as usize;
        }
    }
    ev!("OUT {} {}", fd, Hex(&data[..take]));
    take as i64
}

unsafe fn stream_read(out: &mut [u8]) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    if choose(me, K::InEintr, 2) == 1 {
        return -EINTR as i64;
    }
    while s().stdin.is_empty() && !s().stdin_eof {
        block(Wait::Stdin, FOREVER);
    }
    let mut take = s().stdin.len().min(out.len());
    if take > 1 && choose(me, K::InShort, 2) == 1 {
        take = 1 + (keyed(s().plan.seed, me, 213, s().seq as u32) % (take as u64 - 1)) as usize;
    }
    for (i, b) in s().stdin.drain(..take).enumerate() {
        out[i] = b;
    }
    ev!("IN {}", take);
    take as i64
}

unsafe fn file_read(fd: c_int, out: &mut [u8]) -> i64 {
    let _g = In::enter();
    point(true);
    let me = s().cur as u32;
    let mut take = out.len();
    if let Some(f) = FILES.get(&fd) {
        if f.rfault && take > 0 {
            if choose(me, K::FileEintr, 2) == 1 {
                ev!("FREADINT {}", f.path);
                return -EINTR as i64;
            }
            if choose(me, K::FileReadErr, 2) == 1 {
                ev!("FREADERR {}", f.path);
                return -EIO as i64;
            }
            if take > 1 && choose(me, K::FileShortRead, 2) == 1 {
                take = 1 + (keyed(s().plan.seed, me, 214, s().seq as u32) % (take as u64 - 1).min(64)) as usize;
            }
        }
    }
    let r = raw::sys3(SYS_read, fd as u64, out.as_mut_ptr() as u64, take as u64);
    if FILES.contains_key(&fd) && !FILES[&fd].path.contains("/certs/") {
        ev!("FREAD {} {}", FILES[&fd].path, r);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if active() {
        let data = std::slice::from_raw_parts(buf as *const u8, len);
        if let Some(k) = sn::sock_of(fd) {
            return raw::ret(do_send(k, data, 0)) as ssize_t;
        }
        if fd == 1 || fd == 2 {
            return raw::ret(stream_write(fd, data)) as ssize_t;
        }
        return raw::ret(file_write(fd, data, None)) as ssize_t;
    }
    raw::ret(raw::sys3(SYS_write, fd as u64, buf as u64, len as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if active() {
        let v = {
            let _g = In::enter();
            gather(iov, cnt as usize)
        };
        return write(fd, v.as_ptr() as *const c_void, v.len());
    }
    raw::ret(raw::sys3(SYS_writev, fd as u64, iov as u64, cnt as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: off64_t) -> ssize_t {
    if active() {
        return raw::ret(file_write(fd, std::slice::from_raw_parts(buf as *const u8, len), Some(off))) as ssize_t;
    }
    raw::ret(raw::sys6(SYS_pwrite64, fd as u64, buf as u64, len as u64, off as u64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, len: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, len, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if active() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        if let Some(k) = sn::sock_of(fd) {
            return raw::ret(do_recv(k, out, 0)) as ssize_t;
        }
        if fd == 0 {
            return raw::ret(stream_read(out)) as ssize_t;
        }
        return raw::ret(file_read(fd, out)) as ssize_t;
    }
    raw::ret(raw::sys3(SYS_read, fd as u64, buf as u64, len as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if active() {
        let mut v = {
            let _g = In::enter();
            vec![0u8; total(iov, cnt as usize)]
        };
        let r = read(fd, v.as_mut_ptr() as *mut c_void, v.len());
        if r > 0 {
            scatter(iov, cnt as usize, &v[..r as usize]);
        }
        return r;
    }
    raw::ret(raw::sys3(SYS_readv, fd as u64, iov as u64, cnt as u64)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() {
        let _g = In::enter();
        point(true);
        if sn::close(fd) {
        } else if let Some(f) = FILES.remove(&fd) {
            if f.wlog {
                ev!("FCLOSE {}", f.path);
            } else if f.inroot {
                ev!("RCLOSE {}", f.path);
            }
        }
    }
    raw::ret(raw::sys3(SYS_close, fd as u64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: pid_t, size: size_t, set: *mut c_void) -> c_int {
    if !SIM.is_null() && TID.with(|t| t.get()) >= 0 {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        if size > 0 {
            // one to eight processors, by the seed
            let n = [1u32, 2, 2, 4, 8][((*SIM).plan.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) as usize % 5];
            *(set as *mut u8) = ((1u32 << n) - 1) as u8;
        }
        return 0;
    }
    let r = raw::sys3(SYS_sched_getaffinity, pid as u64, size as u64, set as u64);
    if r < 0 {
        return raw::ret(r) as c_int;
    }
    std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size - r as usize);
    0
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !active() {
        return raw::ret(raw::sys6(SYS_openat, dir as u64, path as u64, flags as u64, mode as u64, 0, 0)) as c_int;
    }
    let _g = In::enter();
    let name = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    point(true);
    let me = s().cur as u32;
    let writing = flags & O_ACCMODE != O_RDONLY;
    let fsp = &s().plan.fs;
    let wf = writing && !fsp.write_under.is_empty() && name.contains(&fsp.write_under);
    let rf = !writing && !fsp.read_under.is_empty() && name.contains(&fsp.read_under);
    if name == "/proc/self/cgroup" {
        // the number of processors must not depend on the machine
        return raw::fail(ENOENT) as c_int;
    }
    let in_root = !s().plan.root.is_empty() && (name.contains(&s().plan.root) || !name.starts_with('/'));
    if wf || rf {
        if choose(me, K::OpenEintr, 2) == 1 {
            return raw::fail(EINTR) as c_int;
        }
        let v = choose(me, K::FileOpenErr, 4);
        if v > 0 {
            let e = [EACCES, EMFILE, EIO][v as usize - 1];
            ev!("OPEN {} {} -{}", short(&name), writing as u8, e);
            return raw::fail(e) as c_int;
        }
    }
    let r = raw::sys6(SYS_openat, dir as u64, path as u64, flags as u64, mode as u64, 0, 0);
    if in_root || wf || rf {
        ev!("OPEN {} {} {}", short(&name), writing as u8, r.min(0));
    }
    if r >= 0 {
        FILES.insert(r as i32, FileInfo { path: short(&name), wfault: wf, rfault: rf, wlog: in_root && writing, inroot: in_root });
    }
    raw::ret(r) as c_int
}
fn short(path: &str) -> String {
    let root = &s().plan.root;
    let p = if root.is_empty() { path } else { path.strip_prefix(root.as_str()).unwrap_or(path) };
    p.trim_start_matches('/').replace(' ', "\\x20")
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}

/// An injected failure of a stat of a source file or directory.
unsafe fn stat_err(path: *const c_char) -> i32 {
    if path.is_null() || !active() {
        return 0;
    }
    let _g = In::enter();
    let name = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    let under = &s().plan.fs.read_under;
    if under.is_empty() || !name.contains(under.as_str()) {
        return 0;
    }
    point(true);
    let me = s().cur as u32;
    let v = choose(me, K::StatErr, 3);
    if v == 0 {
        return 0;
    }
    ev!("STATERR {}", short(&name));
    [EACCES, EIO][v as usize - 1]
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut c_void) -> c_int {
    let e = stat_err(path);
    if e != 0 {
        return raw::fail(e) as c_int;
    }
    raw::ret(raw::sys6(SYS_statx, dir as u64, path as u64, flags as u64, mask as u64, out as u64, 0)) as c_int
}
macro_rules! stat_family {
    ($name:ident, $flags:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char, out: *mut c_void) -> c_int {
            let e = stat_err(path);
            if e != 0 {
                return raw::fail(e) as c_int;
            }
            raw::ret(raw::sys6(SYS_newfstatat, AT_FDCWD as u64, path as u64, out as u64, $flags as u64, 0, 0)) as c_int
        }
    };
}
stat_family!(stat, 0);
stat_family!(stat64, 0);
stat_family!(lstat, AT_SYMLINK_NOFOLLOW);
stat_family!(lstat64, AT_SYMLINK_NOFOLLOW);

macro_rules! passthrough {
    ($name:ident, $nr:expr, ($($a:ident: $t:ty),*), $ret:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $ret {
            if active() {
                let _g = In::enter();
                point(true);
                ev!("FS {}", stringify!($name));
            }
            let args = [$($a as u64,)* 0, 0, 0];
            raw::ret(raw::sys3($nr, args[0], args[1], args[2])) as $ret
        }
    };
}
passthrough!(fsync, SYS_fsync, (fd: c_int), c_int);
passthrough!(fdatasync, SYS_fdatasync, (fd: c_int), c_int);
passthrough!(ftruncate64, SYS_ftruncate, (fd: c_int, len: i64), c_int);
passthrough!(ftruncate, SYS_ftruncate, (fd: c_int, len: i64), c_int);
passthrough!(rename, SYS_rename, (a: *const c_char, b: *const c_char), c_int);
passthrough!(unlink, SYS_unlink, (a: *const c_char), c_int);
passthrough!(mkdir, SYS_mkdir, (a: *const c_char, m: mode_t), c_int);

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    if let Some(k) = is_sock(fd) {
        match cmd {
            F_GETFL => return if sn::n().socks[k].nonblock { O_NONBLOCK | O_RDWR } else { O_RDWR },
            F_SETFL => {
                sn::n().socks[k].nonblock = arg as c_int & O_NONBLOCK != 0;
                return 0;
            }
            F_DUPFD | F_DUPFD_CLOEXEC => {
                let r = raw::sys3(SYS_fcntl, fd as u64, cmd as u64, arg);
                if r >= 0 {
                    let _g = In::enter();
                    sn::n().socks[k].refs += 1;
                    sn::n().fds.insert(r as i32, k);
                }
                return raw::ret(r) as c_int;
            }
            _ => {}
        }
    } else if active() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        let r = raw::sys3(SYS_fcntl, fd as u64, cmd as u64, arg);
        if r >= 0 {
            let _g = In::enter();
            if let Some(f) = FILES.get(&fd) {
                let f = FileInfo { path: f.path.clone(), wfault: f.wfault, rfault: f.rfault, wlog: f.wlog, inroot: f.inroot };
                FILES.insert(r as i32, f);
            }
        }
        return raw::ret(r) as c_int;
    }
    raw::ret(raw::sys3(SYS_fcntl, fd as u64, cmd as u64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: u64) -> c_int {
    if let Some(k) = is_sock(fd) {
        if req == FIONBIO {
            sn::n().socks[k].nonblock = *(arg as *const c_int) != 0;
        }
        return 0;
    }
    raw::ret(raw::sys3(SYS_ioctl, fd as u64, req, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(_fd: c_int) -> c_int {
    raw::fail(ENOTTY);
    0
}

// directories: entries in an order the simulator chooses

struct DirList {
    entries: Vec<dirent64>,
    at: usize,
    err: bool,
}
static mut DIRS: BTreeMap<usize, DirList> = BTreeMap::new();

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut DIR) -> *mut dirent64 {
    let next = real!(c"readdir64", fn(*mut DIR) -> *mut dirent64);
    if !active() {
        return next(dir);
    }
    let _g = In::enter();
    if !DIRS.contains_key(&(dir as usize)) {
        point(true);
        let mut entries: Vec<dirent64> = Vec::new();
        loop {
            let e = next(dir);
            if e.is_null() {
                break;
            }
            let mut copy: dirent64 = std::mem::zeroed();
            std::ptr::copy_nonoverlapping(e as *const u8, &mut copy as *mut _ as *mut u8, ((*e).d_reclen as usize).min(std::mem::size_of::<dirent64>()));
            entries.push(copy);
        }
        let name = |e: &dirent64| std::ffi::CStr::from_ptr(e.d_name.as_ptr()).to_bytes().to_vec();
        entries.sort_by_key(name);
        let me = s().cur as u32;
        let r = choose_rate(me, K::DirOrder, 10_000, s().rates[K::DirOrder as usize]);
        if r > 0 {
            for i in (1..entries.len()).rev() {
                let j = keyed(s().plan.seed, me, 215, r * 64 + i as u32) as usize % (i + 1);
                entries.swap(i, j);
            }
        }
        let err = choose(me, K::DirErr, 2) == 1;
        DIRS.insert(dir as usize, DirList { entries, at: 0, err });
    }
    let d = DIRS.get_mut(&(dir as usize)).unwrap();
    if d.err && d.at * 2 >= d.entries.len() {
        d.err = false;
        ev!("DIRERR");
        raw::set_errno(EIO);
        return std::ptr::null_mut();
    }
    if d.at < d.entries.len() {
        d.at += 1;
        return &mut d.entries[d.at - 1];
    }
    raw::set_errno(0);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut DIR) -> c_int {
    if active() {
        let _g = In::enter();
        DIRS.remove(&(dir as usize));
    }
    real!(c"closedir", fn(*mut DIR) -> c_int)(dir)
}
