//! Scheduler, virtual clock, event queue, keyed choices and the event log.
use crate::net::{self, Net};
use crate::raw;
use proto::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, Ordering};

pub const EXIT_DEADLOCK: i32 = 97;
pub const EXIT_LIVELOCK: i32 = 96;
pub const EXIT_KILLED: i32 = 137;
pub const EXIT_SIGINT: i32 = 130;
pub const EXIT_HARNESS: i32 = 99;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wait {
    None,
    Futex(usize, u32),
    Sem(usize),
    SockRead(usize),
    SockWrite(usize),
    Connect(usize),
    Join(usize),
    Stdin,
    Sleep,
    Dns,
    Poll,
    Start,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Runnable,
    Blocked(Wait),
    Finished,
}

pub struct Thread {
    pub state: State,
    pub park: &'static AtomicU32,
    pub gen: u64,
    pub timed_out: bool,
    pub interrupted: bool,
    pub woken: bool,
    pub prio: u64,
    pub pthread: u64,
    pub streak: u32,
    pub conns: u32,
    pub rand: u32,
}

pub enum Ev {
    Timeout(usize, u64),
    ConnDone(usize, i32),
    ToServer(usize, Vec<u8>),
    ToClient(usize, Vec<u8>),
    ToClientEnd(usize, bool),
    Respond(usize),
    Stdin(Vec<u8>),
    StdinEof,
    Sigint,
    WallJump(i64),
}

pub struct Sim {
    pub plan: Plan,
    pub rates: [u32; NKINDS],
    pub counters: BTreeMap<(u32, u8), u32>,
    pub replay: BTreeMap<(u32, u8, u32), u32>,
    pub budget: u32,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub now: u64,
    pub steps: u64,
    pub seq: u64,
    pub queue: BTreeMap<(u64, u64), Ev>,
    pub runnable: usize,
    pub change_i: usize,
    pub futex_fifo: u64,
    pub waiters: Vec<(u64, usize)>, // (order, tid) of futex waiters
    pub wall: i64,
    pub sems: BTreeMap<usize, u32>,
    pub sigint_handler: usize,
    pub sigint_i: usize,
    pub stdin: std::collections::VecDeque<u8>,
    pub stdin_eof: bool,
    pub net: Net,
    pub world_rand: u32,
    pub log: *mut u8,
    pub log_cap: usize,
    pub log_len: usize,
    pub buf: String,
    pub disk_used: u64,
    pub disk_dead: i32,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static DEPTH: Cell<u32> = const { Cell::new(0) };
}

#[inline]
pub fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn active() -> bool {
    unsafe { !SIM.is_null() && TID.with(|t| t.get()) >= 0 && DEPTH.with(|d| d.get()) == 0 }
}
/// simulated thread, possibly inside the simulator already
#[inline]
pub fn nested() -> bool {
    unsafe { !SIM.is_null() && TID.with(|t| t.get()) >= 0 && DEPTH.with(|d| d.get()) > 0 }
}
pub struct In;
impl In {
    #[inline]
    pub fn enter() -> In {
        DEPTH.with(|d| d.set(d.get() + 1));
        In
    }
}
impl Drop for In {
    #[inline]
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

// ---------------------------------------------------------------- memory

/// What the simulator itself has allocated, so that the program's part can be told.
pub struct Counting;
static OWN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" {
    fn malloc_usable_size(p: *mut libc::c_void) -> usize;
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        if !p.is_null() {
            OWN.fetch_add(malloc_usable_size(p as _) + 8, Ordering::Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        OWN.fetch_sub(malloc_usable_size(p as _) + 8, Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let old = malloc_usable_size(p as _);
        let q = std::alloc::System.realloc(p, l, n);
        if !q.is_null() {
            OWN.fetch_add(malloc_usable_size(q as _), Ordering::Relaxed);
            OWN.fetch_sub(old, Ordering::Relaxed);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Bytes the program has allocated and not freed (roughly: freed pieces the allocator keeps at hand count too).
pub fn heap() -> i64 {
    let m = unsafe { libc::mallinfo2() };
    (m.uordblks + m.hblkhd) as i64 - OWN.load(Ordering::Relaxed) as i64
}

// ---------------------------------------------------------------- event log

pub fn log_raw(text: &str) {
    let sim = s();
    let bytes = text.as_bytes();
    if sim.log_len + bytes.len() + 16 > sim.log_cap {
        // the log is part of the evidence: never continue with a cut-off one
        unsafe {
            *(sim.log.add(8)) = 1;
            raw::exit_group(EXIT_HARNESS)
        }
    }
    unsafe {
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), sim.log.add(16 + sim.log_len), bytes.len());
        sim.log_len += bytes.len();
        *(sim.log as *mut u64) = sim.log_len as u64;
    }
}

pub fn log(args: std::fmt::Arguments) {
    let sim = s();
    let mut buf = std::mem::take(&mut sim.buf);
    buf.clear();
    let _ = write!(buf, "{} {} ", sim.now, sim.cur);
    let _ = buf.write_fmt(args);
    buf.push('\n');
    log_raw(&buf);
    sim.buf = buf;
}
#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => { $crate::core::log(format_args!($($arg)*)) };
}

pub struct Hex<'a>(pub &'a [u8]);
impl std::fmt::Display for Hex<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        const D: &[u8; 16] = b"0123456789abcdef";
        let mut tmp = [0u8; 256];
        for chunk in self.0.chunks(128) {
            for (i, b) in chunk.iter().enumerate() {
                tmp[2 * i] = D[(b >> 4) as usize];
                tmp[2 * i + 1] = D[(b & 15) as usize];
            }
            f.write_str(unsafe { std::str::from_utf8_unchecked(&tmp[..chunk.len() * 2]) })?;
        }
        if self.0.is_empty() {
            f.write_str("-")?;
        }
        Ok(())
    }
}
pub fn unhex(text: &str) -> Vec<u8> {
    let b = text.as_bytes();
    if text == "-" {
        return Vec::new();
    }
    (0..b.len() / 2).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

// ---------------------------------------------------------------- choices

fn is_fault(kind: K) -> bool {
    !matches!(
        kind,
        K::Switch
            | K::Pick
            | K::WakeOrder
            | K::DirOrder
            | K::DnsOrder
            | K::DnsDelay
            | K::ConnDelay
            | K::SrvThink
            | K::SrvSeg
            | K::SrvGap
            | K::SrvStatus
            | K::SrvBody
            | K::SrvHdr
            | K::SrvFraming
            | K::SigThread
            | K::NetLatency
            | K::SrvFaultPos
            | K::SpawnOrder
    )
}

fn next_n(scope: u32, kind: K) -> u32 {
    let c = s().counters.entry((scope, kind as u8)).or_insert(0);
    let n = *c;
    *c += 1;
    n
}

pub fn record(scope: u32, kind: K, n: u32, v: u32) {
    ev!("D {} {} {} {}", scope, kind as u8, n, v);
}

/// A choice among 0..n, 0 being the benign default.
pub fn choose(scope: u32, kind: K, n: u32) -> u32 {
    let rate = s().rates[kind as usize];
    choose_rate(scope, kind, n, rate)
}
pub fn choose_rate(scope: u32, kind: K, n: u32, rate: u32) -> u32 {
    if n < 2 {
        return 0;
    }
    let sim = s();
    if !sim.plan.replay && rate == 0 {
        return 0;
    }
    let c = next_n(scope, kind);
    let v = if sim.plan.replay {
        (*sim.replay.get(&(scope, kind as u8, c)).unwrap_or(&0)).min(n - 1)
    } else {
        let r = keyed(sim.plan.seed, scope, kind as u8, c);
        if ((r & 0xffff) as u32) < rate && (!is_fault(kind) || sim.budget > 0) {
            1 + ((r >> 20) % (n as u64 - 1)) as u32
        } else {
            0
        }
    };
    if v != 0 {
        if is_fault(kind) && sim.budget > 0 {
            sim.budget -= 1;
        }
        record(scope, kind, c, v);
    }
    v
}

// ---------------------------------------------------------------- scheduler

pub fn post(at: u64, ev: Ev) {
    let sim = s();
    sim.seq += 1;
    sim.queue.insert((at, sim.seq), ev);
}

pub fn make_runnable(tid: usize) {
    let sim = s();
    if let State::Blocked(w) = sim.threads[tid].state {
        if let Wait::Futex(..) = w {
            sim.waiters.retain(|(_, t)| *t != tid);
        }
        sim.threads[tid].state = State::Runnable;
        sim.threads[tid].gen += 1;
        sim.runnable += 1;
    }
}

/// Wakes every thread waiting for `key`.
pub fn wake(key: Wait) {
    for tid in 0..s().threads.len() {
        if s().threads[tid].state == State::Blocked(key) {
            make_runnable(tid);
        }
    }
}
fn fire(ev: Ev) {
    match ev {
        Ev::Timeout(tid, gen) => {
            if s().threads[tid].gen == gen {
                if let State::Blocked(_) = s().threads[tid].state {
                    s().threads[tid].timed_out = true;
                    make_runnable(tid);
                }
            }
        }
        Ev::Stdin(data) => {
            s().stdin.extend(data);
            wake(Wait::Stdin);
            wake(Wait::Poll);
        }
        Ev::StdinEof => {
            s().stdin_eof = true;
            wake(Wait::Stdin);
            wake(Wait::Poll);
        }
        Ev::Sigint => sigint(),
        Ev::WallJump(d) => {
            s().wall += d;
            ev!("WALLJUMP {}", d);
        }
        other => net::fire(other),
    }
}

pub fn sigint() {
    let h = s().sigint_handler;
    ev!("SIGINT {}", (h > 1) as u8);
    if h == 0 {
        ev!("END sigint");
        unsafe { raw::exit_group(EXIT_SIGINT) }
    }
    if h == 1 {
        return;
    }
    // a blocked sleeper or poller may be the thread the kernel interrupts
    let sleepers: Vec<usize> = (0..s().threads.len())
        .filter(|t| matches!(s().threads[*t].state, State::Blocked(Wait::Sleep) | State::Blocked(Wait::Poll)))
        .collect();
    let v = choose(0, K::SigThread, sleepers.len() as u32 + 1);
    if v > 0 {
        let t = sleepers[v as usize - 1];
        s().threads[t].interrupted = true;
        make_runnable(t);
    }
    let f: extern "C" fn(i32) = unsafe { std::mem::transmute(h) };
    f(libc::SIGINT);
}

fn fire_due() {
    loop {
        let key = match s().queue.first_key_value() {
            Some((k, _)) if k.0 <= s().now => *k,
            _ => return,
        };
        let ev = s().queue.remove(&key).unwrap();
        fire(ev);
    }
}

fn bounds() {
    let sim = s();
    sim.steps += 1;
    if sim.plan.kill_step != 0 && sim.steps == sim.plan.kill_step {
        ev!("END killed");
        unsafe { raw::exit_group(EXIT_KILLED) }
    }
    while sim.sigint_i < sim.plan.sigint_steps.len() && sim.plan.sigint_steps[sim.sigint_i] <= sim.steps {
        sim.sigint_i += 1;
        sigint();
    }
    if sim.steps > sim.plan.max_steps || sim.now > sim.plan.max_time {
        let why: String = if sim.steps > sim.plan.max_steps { "steps".into() } else { "time".into() };
        dump_threads();
        ev!("END livelock {}", why);
        unsafe { raw::exit_group(EXIT_LIVELOCK) }
    }
}

pub fn dump_threads() {
    for t in 0..s().threads.len() {
        let st = match s().threads[t].state {
            State::Blocked(Wait::Futex(..)) => "blocked futex".to_string(),
            State::Blocked(Wait::Sem(..)) => "blocked sem".to_string(),
            other => format!("{:?}", other),
        };
        ev!("THREAD {} {}", t, st);
    }
}

fn nth_runnable_after(start: usize, k: usize) -> usize {
    // k-th (0-based) runnable thread in cyclic order after `start`
    let n = s().threads.len();
    let mut k = k;
    for i in 1..=n {
        let t = (start + i) % n;
        if s().threads[t].state == State::Runnable {
            if k == 0 {
                return t;
            }
            k -= 1;
        }
    }
    start
}

fn top_priority() -> usize {
    let sim = s();
    let mut best = usize::MAX;
    for t in 0..sim.threads.len() {
        if sim.threads[t].state == State::Runnable && (best == usize::MAX || sim.threads[t].prio > sim.threads[best].prio) {
            best = t;
        }
    }
    best
}

fn pct_step() {
    let sim = s();
    while sim.change_i < sim.plan.sched.change.len() && sim.steps >= sim.plan.sched.change[sim.change_i] {
        sim.change_i += 1;
        let low = sim.change_i as u64;
        sim.threads[sim.cur].prio = 1000 - low;
    }
}

pub fn hand_over(next: usize) {
    let me = s().cur;
    if next == me {
        return;
    }
    ev!("SW {}", next);
    s().cur = next;
    let w = s().threads[next].park;
    let mine = s().threads[me].park;
    w.store(1, Ordering::SeqCst);
    unsafe { raw::futex_wake(w.as_ptr()) };
    wait_token(mine);
}
pub fn wait_token(mine: &'static AtomicU32) {
    loop {
        if mine.swap(0, Ordering::SeqCst) == 1 {
            break;
        }
        unsafe { raw::futex_wait(mine.as_ptr(), 0) };
    }
}

/// A scheduling point in the running thread. `call`: at a library call,
/// otherwise at an atomic operation.
pub fn point(call: bool) {
    bounds();
    let sim = s();
    sim.now += if call { 1000 } else { 20 };
    let me = sim.cur;
    sim.threads[me].streak += 1;
    if call {
        let ms = choose(me as u32, K::Stall, 400);
        if ms > 0 {
            s().now += ms as u64 * MS;
        }
    }
    fire_due();
    if s().runnable < 2 {
        if s().threads[me].streak > 20_000 {
            // spinning alone: let time pass
            s().threads[me].streak = 0;
            if let Some((k, _)) = s().queue.first_key_value() {
                let at = k.0;
                if at > s().now && at < FOREVER {
                    s().now = at;
                }
            }
            fire_due();
        }
        return;
    }
    if s().threads[me].streak > 5_000 {
        s().threads[me].streak = 0;
        let next = nth_runnable_after(me, 0);
        hand_over(next);
        return;
    }
    let sim = s();
    if sim.plan.replay {
        let c = next_n(me as u32, K::Switch);
        if let Some(v) = sim.replay.get(&(me as u32, K::Switch as u8, c)) {
            let t = *v as usize - 1;
            if t < sim.threads.len() && sim.threads[t].state == State::Runnable && t != me {
                record(me as u32, K::Switch, c, *v);
                hand_over(t);
            }
        }
        return;
    }
    let next = if sim.plan.sched.policy == 1 {
        pct_step();
        let c = next_n(me as u32, K::Switch);
        let t = top_priority();
        if t != me {
            record(me as u32, K::Switch, c, t as u32 + 1);
        }
        t
    } else {
        let c = next_n(me as u32, K::Switch);
        let p = if call { sim.plan.sched.p_call } else { sim.plan.sched.p_atomic };
        if p == 0 {
            return;
        }
        let r = keyed(sim.plan.seed, me as u32, K::Switch as u8, c);
        if ((r & 0xffff) as u32) < p {
            let k = (r >> 20) as usize % (sim.runnable - 1);
            let t = nth_runnable_after(me, k);
            record(me as u32, K::Switch, c, t as u32 + 1);
            t
        } else {
            me
        }
    };
    hand_over(next);
}

/// The running thread gives way (sched_yield): next runnable, cyclic.
pub fn give_way() {
    bounds();
    s().now += 1000;
    fire_due();
    let me = s().cur;
    s().threads[me].streak = 0;
    if s().runnable >= 2 {
        let next = nth_runnable_after(me, 0);
        hand_over(next);
    } else {
        // alone: a yield loop must see time pass
        s().now += 50_000;
        fire_due();
    }
}

fn pick_next() -> usize {
    loop {
        fire_due();
        if s().runnable > 0 {
            break;
        }
        match s().queue.first_key_value() {
            Some((k, _)) if k.0 < FOREVER => {
                let at = k.0;
                s().now = at.max(s().now);
                bounds();
            }
            _ => {
                dump_threads();
                ev!("END deadlock");
                unsafe { raw::exit_group(EXIT_DEADLOCK) }
            }
        }
    }
    let sim = s();
    let me = sim.cur;
    let n = sim.runnable;
    if sim.plan.replay || sim.plan.sched.policy == 0 {
        // uniformly random among the runnable threads; default: next in cyclic order
        let rate = if n > 1 { 65536 * (n as u32 - 1) / n as u32 } else { 0 };
        let k = choose_rate(me as u32, K::Pick, n as u32, rate);
        nth_runnable_after(me, k as usize)
    } else {
        pct_step();
        let t = top_priority();
        if n > 1 {
            let c = next_n(me as u32, K::Pick);
            let mut k = 0;
            while nth_runnable_after(me, k) != t {
                k += 1;
            }
            if k > 0 {
                record(me as u32, K::Pick, c, k as u32);
            }
        }
        t
    }
}

/// Blocks the running thread. Returns true if woken by the deadline.
pub fn block(key: Wait, deadline: u64) -> bool {
    bounds();
    let me = s().cur;
    let t = &mut s().threads[me];
    t.state = State::Blocked(key);
    t.timed_out = false;
    t.interrupted = false;
    t.woken = false;
    t.streak = 0;
    t.gen += 1;
    let gen = t.gen;
    s().runnable -= 1;
    if let Wait::Futex(..) = key {
        s().futex_fifo += 1;
        let o = s().futex_fifo;
        s().waiters.push((o, me));
    }
    if deadline < FOREVER {
        post(deadline, Ev::Timeout(me, gen));
    }
    let next = pick_next();
    hand_over(next);
    s().threads[me].timed_out
}

/// A thread that was just created begins later.
pub fn hold(tid: usize, until: u64) {
    let t = &mut s().threads[tid];
    t.state = State::Blocked(Wait::Start);
    t.gen += 1;
    let gen = t.gen;
    s().runnable -= 1;
    post(until, Ev::Timeout(tid, gen));
}

/// The running thread ends: pass the token on without waiting for it again.
pub fn thread_end() {
    bounds();
    let me = s().cur;
    ev!("TEND");
    s().threads[me].state = State::Finished;
    s().runnable -= 1;
    wake(Wait::Join(me));
    let next = pick_next();
    ev!("SW {}", next);
    s().cur = next;
    let w = s().threads[next].park;
    w.store(1, Ordering::SeqCst);
    unsafe { raw::futex_wake(w.as_ptr()) };
}

pub fn new_thread() -> usize {
    let sim = s();
    let tid = sim.threads.len();
    let park: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    sim.threads.push(Thread {
        state: State::Runnable,
        park,
        gen: 0,
        timed_out: false,
        interrupted: false,
        woken: false,
        prio: 1_000_000 + (keyed(sim.plan.seed, tid as u32, 250, 0) >> 8),
        pthread: 0,
        streak: 0,
        conns: 0,
        rand: 0,
    });
    sim.runnable += 1;
    tid
}

pub fn init() {
    unsafe {
        let fd = |name: &str| std::env::var(name).ok().and_then(|v| v.parse::<i32>().ok());
        let (plan_fd, log_fd) = match (fd("AMSIM_PLAN_FD"), fd("AMSIM_LOG_FD")) {
            (Some(p), Some(l)) => (p, l),
            _ => return,
        };
        let mut text = Vec::new();
        let mut off = 0u64;
        loop {
            let mut chunk = [0u8; 65536];
            let n = raw::sys6(libc::SYS_pread64, plan_fd as u64, chunk.as_mut_ptr() as u64, chunk.len() as u64, off, 0, 0);
            if n <= 0 {
                break;
            }
            text.extend_from_slice(&chunk[..n as usize]);
            off += n as u64;
        }
        let plan: Plan = match serde_json::from_slice(&text) {
            Ok(p) => p,
            Err(_) => raw::exit_group(EXIT_HARNESS),
        };
        let mut st: libc::stat = std::mem::zeroed();
        raw::sys3(libc::SYS_fstat, log_fd as u64, &mut st as *mut _ as u64, 0);
        let cap = st.st_size as usize;
        let map = raw::sys6(libc::SYS_mmap, 0, cap as u64, (libc::PROT_READ | libc::PROT_WRITE) as u64, libc::MAP_SHARED as u64, log_fd as u64, 0);
        if map <= 0 || cap < 4096 {
            raw::exit_group(EXIT_HARNESS)
        }
        raw::sys3(libc::SYS_close, plan_fd as u64, 0, 0);
        raw::sys3(libc::SYS_close, log_fd as u64, 0, 0);
        let mut rates = [0u32; NKINDS];
        for r in &plan.rates {
            rates[r.kind as usize] = r.p;
        }
        let replay = plan.decisions.iter().map(|d| ((d.scope, d.kind, d.n), d.v)).collect();
        let sim = Sim {
            rates,
            counters: BTreeMap::new(),
            replay,
            budget: if plan.replay { u32::MAX } else { plan.fault_budget },
            threads: Vec::new(),
            cur: 0,
            now: MONO_BASE,
            steps: 0,
            seq: 0,
            queue: BTreeMap::new(),
            runnable: 0,
            change_i: 0,
            futex_fifo: 0,
            waiters: Vec::new(),
            wall: plan.wall_offset,
            sems: BTreeMap::new(),
            sigint_handler: 0,
            sigint_i: 0,
            stdin: Default::default(),
            stdin_eof: false,
            net: Net::default(),
            world_rand: 0,
            log: map as *mut u8,
            log_cap: cap,
            log_len: 0,
            buf: String::with_capacity(4096),
            disk_used: 0,
            disk_dead: 0,
            plan,
        };
        SIM = Box::into_raw(Box::new(sim));
        let plan = &s().plan;
        for c in &plan.stdin {
            post(MONO_BASE + c.at, Ev::Stdin(unhex(&c.data)));
        }
        post(MONO_BASE + plan.stdin_eof_at, Ev::StdinEof);
        for t in &plan.sigint_times {
            post(MONO_BASE + *t, Ev::Sigint);
        }
        for (t, d) in &plan.wall_jumps {
            post(MONO_BASE + *t, Ev::WallJump(*d));
        }
        new_thread();
        net::init();
        TID.with(|t| t.set(0));
        ev!("START");
    }
}
