//! Types shared by the simulator (preloaded into the program under test) and
//! the orchestrator: the plan of one run and the keyed random choices.
use serde::{Deserialize, Serialize};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// virtual wall clock at start of every run: 2025-03-01T00:00:00Z
pub const WALL_BASE: u64 = 1_740_787_200 * SEC;
/// virtual monotonic clock at start of every run
pub const MONO_BASE: u64 = 1_000 * SEC;
/// durations at or beyond this are "forever"
pub const FOREVER: u64 = 1 << 60;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn keyed(seed: u64, scope: u32, kind: u8, n: u32) -> u64 {
    let a = mix(seed ^ ((scope as u64) << 32 | n as u64));
    mix(a ^ ((kind as u64) << 56) ^ seed.rotate_left(17))
}

/// A small sequential generator for the orchestrator's workload generation.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
}

macro_rules! kinds {
    ($($name:ident = $val:literal, $text:literal;)+) => {
        /// What a choice is about. Value 0 is always the benign default.
        #[repr(u8)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum K { $($name = $val,)+ }
        impl K {
            pub const ALL: &'static [(K, &'static str)] = &[$((K::$name, $text),)+];
            pub fn name(self) -> &'static str {
                Self::ALL.iter().find(|(k, _)| *k == self).map(|(_, n)| *n).unwrap_or("?")
            }
        }
    };
}
pub const NKINDS: usize = 64;
kinds! {
    Switch = 1, "sched.switch";            // at a scheduling point: switch to thread v-1
    Pick = 2, "sched.pick";                // when the running thread blocks: pick the v-th runnable
    WakeOrder = 3, "sched.wake_order";     // which futex waiter is woken
    Spurious = 4, "futex.spurious";        // spurious wake-up of a futex wait
    Stall = 5, "cpu.stall";                // the running thread loses v milliseconds
    SockEintr = 6, "sock.eintr";
    SendShort = 7, "sock.send_short";
    RecvShort = 8, "sock.recv_short";
    SendErr = 9, "sock.send_reset";        // connection reset by peer while sending
    RecvErr = 10, "sock.recv_reset";       // connection reset by peer while receiving
    SockFail = 11, "sock.create_fail";     // socket(): EMFILE/ENOBUFS
    FileEintr = 12, "file.eintr";
    FileShortWrite = 13, "file.short_write";
    FileWriteErr = 14, "file.write_err";   // ENOSPC / EIO
    FileShortRead = 15, "file.short_read";
    FileReadErr = 16, "file.read_err";
    FileOpenErr = 17, "file.open_err";
    DirOrder = 18, "dir.order";
    DirErr = 19, "dir.err";
    OutEintr = 20, "stdout.eintr";
    OutShort = 21, "stdout.short_write";
    InEintr = 22, "stdin.eintr";
    InShort = 23, "stdin.short_read";
    DnsFail = 24, "dns.fail";
    DnsDelay = 25, "dns.delay";
    DnsOrder = 26, "dns.order";
    ConnOutcome = 27, "conn.outcome";      // 0 as configured, 1 refuse, 2 hang, 3 unreachable
    ConnDelay = 28, "conn.delay";
    SrvThink = 29, "srv.think";
    SrvSeg = 30, "srv.segmentation";
    SrvGap = 31, "srv.gap";
    SrvFault = 32, "srv.fault";
    SrvFaultPos = 33, "srv.fault_pos";
    SrvStatus = 34, "srv.status";
    SrvBody = 35, "srv.body";
    SrvHdr = 36, "srv.headers";
    SrvFraming = 37, "srv.framing";
    SigThread = 38, "signal.thread";
    NetLatency = 39, "net.latency";
    OpenEintr = 40, "file.open_eintr";
    SleepEintr = 41, "sleep.eintr";
    SpawnOrder = 42, "sched.spawn";        // after creating a thread: run it at once
    TlsFault = 43, "tls.fault";
    StatErr = 44, "file.stat_err";
    KillWrite = 45, "process.kill_in_write"; // killed after a part of the bytes were written
    SpawnDelay = 46, "thread.start_delay"; // a thread begins v milliseconds after it was created
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Decision {
    pub scope: u32,
    pub kind: u8,
    pub n: u32,
    pub v: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Rate {
    pub kind: u8,
    /// probability in 1/65536 that a choice of this kind is non-default
    pub p: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Sched {
    /// 0 random walk, 1 priority based (PCT)
    pub policy: u8,
    /// probability in 1/65536 of a switch at a scheduling point (library call)
    pub p_call: u32,
    /// probability in 1/65536 of a switch at an atomic operation
    pub p_atomic: u32,
    /// priority change points (steps) for policy 1
    pub change: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Addr {
    pub ip: String,
    /// connection set-up time (time to the outcome) in ns
    pub delay: u64,
    /// 0 accept, 1 refuse, 2 hang (time out after 127 s), 3 unreachable
    pub outcome: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Host {
    pub name: String,
    pub addrs: Vec<Addr>,
    pub dns_delay: u64,
    /// 0 resolves, otherwise the EAI_* error
    pub dns_err: i32,
    pub service: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Service {
    /// "" plain, otherwise the certificate name (good, wrongname, expired, notyet, untrusted, selfsigned),
    /// "plaintext" answers in clear to whatever arrives, "garbage" sends junk.
    pub tls: String,
    pub think_lo: u64,
    pub think_hi: u64,
    /// one-way network latency in ns
    pub latency: u64,
    pub statuses: Vec<(u16, String)>,
    pub headers: Vec<Vec<(String, String)>>,
    /// bodies; `@SID@`, `@N@` are replaced
    pub bodies: Vec<String>,
    /// 0 Content-Length, 1 close-delimited, 2 chunked: the framings the SrvFraming choice draws from
    pub framings: Vec<u8>,
    /// probability (1/65536) that status/headers/body/framing differ from the first entry
    pub vary: u32,
    /// at most this many segments per response
    pub max_segs: u32,
    pub gap_hi: u64,
    /// the server-side fault kinds that may be drawn (see shim: server faults)
    pub faults: Vec<u8>,
    /// capacity of the client's send buffer
    pub sndbuf: usize,
    /// length of the stall fault
    pub stall: u64,
    /// raw response stream used by fault kind 6 (hostile bytes), hex
    pub hostile: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Chunk {
    pub at: u64,
    /// hex
    pub data: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FsTarget {
    /// write faults only hit files whose path contains this
    pub write_under: String,
    /// read/open-for-read faults only hit files whose path contains this
    pub read_under: String,
    /// bytes of capacity left on the "disk" under write_under (u64::MAX: unlimited)
    pub capacity: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Plan {
    pub seed: u64,
    /// true: only `decisions` are taken, everything else is default
    pub replay: bool,
    pub decisions: Vec<Decision>,
    pub rates: Vec<Rate>,
    /// at most this many fault choices (not scheduling ones) may be non-default
    pub fault_budget: u32,
    pub sched: Sched,
    pub root: String,
    pub certs: String,
    pub hosts: Vec<Host>,
    pub services: Vec<Service>,
    pub stdin: Vec<Chunk>,
    pub stdin_eof_at: u64,
    /// deliver SIGINT at these steps / times
    pub sigint_steps: Vec<u64>,
    pub sigint_times: Vec<u64>,
    /// kill the process at this step (0: never)
    pub kill_step: u64,
    /// (virtual time since start, delta in ns)
    pub wall_jumps: Vec<(u64, i64)>,
    pub wall_offset: i64,
    pub fs: FsTarget,
    pub max_steps: u64,
    pub max_time: u64,
}
