//! The recorded history of one simulated execution.
use proto::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn unhex(text: &str) -> Vec<u8> {
    if text == "-" {
        return Vec::new();
    }
    let b = text.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => 0,
    };
    (0..b.len() / 2).map(|i| d(b[2 * i]) << 4 | d(b[2 * i + 1])).collect()
}
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Clone, Debug)]
pub struct At {
    pub i: usize,
    pub t: u64,
    pub tid: usize,
}

#[derive(Clone, Debug)]
pub struct RespEv {
    pub i: usize,
    pub t: u64,
    pub sid: u64,
    pub status: i64,
    pub framing: u8,
    pub fault: u8,
    pub cut: usize,
    pub headlen: usize,
    pub full: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Conn {
    pub scope: u32,
    pub tid: usize,
    pub i: usize,
    pub t: u64,
    pub ip: String,
    pub port: u16,
    pub host: String,
    pub res: Option<(usize, u64, i32)>,
    pub fault: u8,
    pub tls_fault: u32,
    /// bits within the encrypted data were changed
    pub damaged: bool,
    pub rx: Vec<u8>,
    pub raw: Vec<u8>,
    pub sends: Vec<(usize, u64, usize, i64)>, // index, time, tid, bytes
    pub recvs: Vec<(usize, u64, usize, i64)>,
    pub reqs: Vec<(usize, u64, Vec<u8>)>,
    pub resps: Vec<RespEv>,
    pub fin: Option<u64>,
    pub rst: Option<u64>,
    pub senderr: bool,
    pub recverr: bool,
    pub hs: Option<u64>,
    pub tlserr: Option<String>,
    pub close: Option<(usize, u64)>,
    /// reads begun: index, time, thread
    pub rcalls: Vec<(usize, u64, usize)>,
    pub connerr_open: bool,
}

/// What a thread did last (for the time it may then spend).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ek {
    Start,
    Spawn,
    Tend,
    Dnsq,
    Dns,
    Connect,
    Send,
    Rcall,
    /// the peer takes no more for now
    Swait,
    Recv,
    Close,
    Out,
    File,
    Other,
}
#[derive(Clone, Copy, Debug)]
pub struct Own {
    pub i: usize,
    pub t: u64,
    pub k: Ek,
}

#[derive(Clone, Debug)]
pub struct Attempt {
    pub tid: usize,
    /// log index and time of the resolution request (or of the connect)
    pub i: usize,
    pub t: u64,
    /// index of the next attempt of the same thread (or usize::MAX)
    pub end: usize,
    pub host: String,
    /// index, time, error, addresses
    pub dns: Option<(usize, u64, i32, Vec<String>)>,
    pub conns: Vec<u32>,
    pub used: Option<u32>,
    pub sockfail: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Deadlock,
    Livelock(String),
    Killed,
    Sigint,
    /// died from a signal (number), or ran out of processor time
    Signal(i32),
    Hang,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub i: usize,
    pub t: u64,
    pub i_end: usize,
    pub t_end: u64,
    pub tid: usize,
    pub kind: ItemKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ItemKind {
    Block { name: String, lines: Vec<String>, pass: bool, dur: String },
    Line(String),
}

#[derive(Default, Debug)]
pub struct Hist {
    pub lines: usize,
    pub conns: BTreeMap<u32, Conn>,
    pub attempts: Vec<Attempt>,
    pub parents: BTreeMap<usize, (usize, usize)>, // child -> (parent, index)
    pub spawned: BTreeMap<usize, u64>,
    /// threads that were made to begin late
    pub delayed: BTreeSet<usize>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub out_at: Vec<(usize, At)>, // end offset in out -> event
    pub writers: BTreeSet<usize>,
    pub end: Option<End>,
    pub end_t: u64,
    pub decisions: Vec<Decision>,
    pub handler: Vec<(usize, u64)>,
    pub sigints: Vec<(usize, u64, bool)>,
    pub walljumps: Vec<(usize, u64, i64)>,
    /// per thread: (index, time) of every event except clock reads and scheduling
    pub per: HashMap<usize, Vec<Own>>,
    pub fwrites: Vec<(usize, u64, usize, String, i64, i64)>,
    pub starts: BTreeMap<usize, (usize, u64)>,
    pub opens: Vec<(usize, usize, String, bool, i64)>,
    pub freads: Vec<(usize, String, i64)>,
    pub freaderr: Vec<(usize, usize, String)>,
    pub freadint: Vec<(usize, usize, String)>,
    /// files opened for reading that were closed
    pub rcloses: Vec<(usize, String)>,
    /// files open when the process ended
    pub held: Option<i64>,
    /// what the program has allocated: index, bytes
    pub heap: Vec<(usize, i64)>,
    pub direrr: bool,
    pub staterr: Vec<String>,
    pub threads_at_end: Vec<String>,
    pub sched_hash: u64,
    pub harness: Option<String>,
    pub tends: BTreeMap<usize, (usize, u64)>,
    pub ins: Vec<(usize, u64, usize)>,
    pub sockfail: Vec<(usize, usize)>,
    pub switches: u64,
    pub steps_hint: u64,
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
}

pub fn parse(log: &str) -> Hist {
    let mut h = Hist { sched_hash: 0xcbf2_9ce4_8422_2325, ..Default::default() };
    let mut open_attempt: HashMap<usize, usize> = HashMap::new();
    let num = |x: Option<&str>| -> i64 { x.and_then(|v| v.parse().ok()).unwrap_or(0) };
    for (i, line) in log.lines().enumerate() {
        h.lines = i + 1;
        let mut p = line.split(' ');
        let t = num(p.next()) as u64;
        let tid = num(p.next()) as usize;
        let ev = p.next().unwrap_or("");
        h.end_t = t;
        match ev {
            "CLK" | "D" | "SW" | "HEAP" | "RCLOSE" | "HELD" => {}
            _ => {
                // server-side events carry the running thread's number, not their own
                if !matches!(ev, "RX" | "REQ" | "RESP" | "DAMAGE" | "FIN" | "RST" | "CONNRES" | "ACCEPT" | "TLSHS" | "TLSERR" | "RAW" | "WALLJUMP" | "SIGINT" | "THREAD" | "END" | "HARNESS") {
                    let k = match ev {
                        "START" => Ek::Start,
                        "SPAWN" => Ek::Spawn,
                        "TEND" => Ek::Tend,
                        "DNSQ" => Ek::Dnsq,
                        "DNS" => Ek::Dns,
                        "CONNECT" => Ek::Connect,
                        "SEND" | "SENDERR" => Ek::Send,
                        "RCALL" => Ek::Rcall,
                        "SWAIT" => Ek::Swait,
                        "RECV" | "RECVERR" => Ek::Recv,
                        "CLOSE" => Ek::Close,
                        "OUT" => Ek::Out,
                        "OPEN" | "FREAD" | "FREADERR" | "FWRITE" | "FCLOSE" | "FS" => Ek::File,
                        _ => Ek::Other,
                    };
                    h.per.entry(tid).or_default().push(Own { i, t, k });
                }
                fnv(&mut h.sched_hash, ev.as_bytes());
                fnv(&mut h.sched_hash, &(tid as u32).to_le_bytes());
            }
        }
        match ev {
            "D" => {
                let (a, b, c, d) = (num(p.next()), num(p.next()), num(p.next()), num(p.next()));
                h.decisions.push(Decision { scope: a as u32, kind: b as u8, n: c as u32, v: d as u32 });
            }
            "SW" => h.switches += 1,
            "START" => {
                h.starts.insert(tid, (i, t));
            }
            "RCALL" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.rcalls.push((i, t, tid));
                }
            }
            "SPAWN" => {
                let c = num(p.next()) as usize;
                h.parents.insert(c, (tid, i));
                h.spawned.insert(c, t);
            }
            "SDELAY" => {
                h.delayed.insert(num(p.next()) as usize);
            }
            "TEND" => {
                h.tends.insert(tid, (i, t));
            }
            "DNSQ" => {
                if let Some(a) = open_attempt.get(&tid) {
                    h.attempts[*a].end = i;
                }
                open_attempt.insert(tid, h.attempts.len());
                h.attempts.push(Attempt {
                    tid,
                    i,
                    t,
                    end: usize::MAX,
                    host: p.next().unwrap_or("").into(),
                    dns: None,
                    conns: vec![],
                    used: None,
                    sockfail: 0,
                });
            }
            "DNS" => {
                let _ = p.next();
                let e = num(p.next()) as i32;
                let ips = p.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                if let Some(a) = open_attempt.get(&tid) {
                    h.attempts[*a].dns = Some((i, t, e, ips));
                }
            }
            "SOCKET" => {
                h.sockfail.push((i, tid));
                let owner = owner(&h.parents, &open_attempt, tid);
                if let Some(a) = open_attempt.get(&owner) {
                    h.attempts[*a].sockfail += 1;
                }
            }
            "CONNECT" => {
                let scope = num(p.next()) as u32;
                let ip = p.next().unwrap_or("").to_string();
                let port = num(p.next()) as u16;
                let host = p.next().unwrap_or("").to_string();
                h.conns.insert(scope, Conn { scope, tid, i, t, ip: ip.clone(), port, host: host.clone(), ..Default::default() });
                if host.parse::<std::net::IpAddr>().is_ok() {
                    // nothing was resolved; the attempt is that of the worker,
                    // whatever thread connects for it
                    let mut tid = tid;
                    while let Some((p, _)) = h.parents.get(&tid) {
                        if !h.parents.contains_key(p) {
                            break;
                        }
                        tid = *p;
                    }
                    if let Some(a) = open_attempt.get(&tid) {
                        h.attempts[*a].end = i;
                    }
                    open_attempt.insert(tid, h.attempts.len());
                    h.attempts.push(Attempt { tid, i, t, end: usize::MAX, host, dns: Some((i, t, 0, vec![ip])), conns: vec![scope], used: None, sockfail: 0 });
                    continue;
                }
                // a racing thread belongs to the attempt of the thread that
                // started it, if it was started after that attempt began
                let mut o = tid;
                let mut at = None;
                loop {
                    let born = h.parents.get(&o).copied();
                    if let Some(a) = open_attempt.get(&o) {
                        at = Some(*a);
                        break;
                    }
                    match born {
                        Some((parent, when)) => {
                            // which attempt of the parent was open at birth
                            if let Some(k) = h.attempts.iter().rposition(|a| a.tid == parent && a.i < when && when < a.end) {
                                at = Some(k);
                                break;
                            }
                            o = parent;
                        }
                        None => break,
                    }
                }
                match at {
                    Some(a) => h.attempts[a].conns.push(scope),
                    None => {
                        open_attempt.insert(tid, h.attempts.len());
                        h.attempts.push(Attempt { tid, i, t, end: usize::MAX, host, dns: None, conns: vec![scope], used: None, sockfail: 0 });
                    }
                }
            }
            "CONNRES" => {
                let k = num(p.next()) as u32;
                let e = num(p.next()) as i32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.res = Some((i, t, e));
                }
            }
            "DAMAGE" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.damaged = true;
                }
            }
            "ACCEPT" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.fault = num(p.next()) as u8;
                    c.tls_fault = num(p.next()) as u32;
                }
            }
            "SEND" | "RECV" => {
                let k = num(p.next()) as u32;
                let m = num(p.next());
                if let Some(c) = h.conns.get_mut(&k) {
                    if ev == "SEND" {
                        c.sends.push((i, t, tid, m));
                        if let Some(a) = open_attempt.get(&tid) {
                            if h.attempts[*a].conns.contains(&k) {
                                h.attempts[*a].used.get_or_insert(k);
                            }
                        }
                    } else {
                        c.recvs.push((i, t, tid, m));
                        if let Some(a) = open_attempt.get(&tid) {
                            if h.attempts[*a].conns.contains(&k) {
                                h.attempts[*a].used.get_or_insert(k);
                            }
                        }
                    }
                }
            }
            "SENDERR" | "RECVERR" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    if ev == "SENDERR" {
                        c.senderr = true
                    } else {
                        c.recverr = true
                    }
                    if let Some(a) = open_attempt.get(&tid) {
                        if h.attempts[*a].conns.contains(&k) {
                            h.attempts[*a].used.get_or_insert(k);
                        }
                    }
                }
            }
            "RX" | "RAW" => {
                let k = num(p.next()) as u32;
                let d = unhex(p.next().unwrap_or("-"));
                if let Some(c) = h.conns.get_mut(&k) {
                    if ev == "RX" {
                        c.rx.extend(d)
                    } else {
                        c.raw.extend(d)
                    }
                }
            }
            "REQ" => {
                let k = num(p.next()) as u32;
                let _ = p.next();
                let d = unhex(p.next().unwrap_or("-"));
                if let Some(c) = h.conns.get_mut(&k) {
                    c.reqs.push((i, t, d));
                }
            }
            "RESP" => {
                let k = num(p.next()) as u32;
                let sid = num(p.next()) as u64;
                let status = num(p.next());
                let framing = num(p.next()) as u8;
                let fault = num(p.next()) as u8;
                let cut = num(p.next()) as usize;
                let headlen = num(p.next()) as usize;
                let full = unhex(p.next().unwrap_or("-"));
                if let Some(c) = h.conns.get_mut(&k) {
                    c.resps.push(RespEv { i, t, sid, status, framing, fault, cut, headlen, full });
                }
            }
            "FIN" | "RST" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    if ev == "FIN" {
                        c.fin = Some(t)
                    } else {
                        c.rst = Some(t)
                    }
                }
            }
            "TLSHS" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.hs = Some(t);
                }
            }
            "TLSERR" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.tlserr = Some(p.next().unwrap_or("").to_string());
                }
            }
            "CLOSE" => {
                let k = num(p.next()) as u32;
                if let Some(c) = h.conns.get_mut(&k) {
                    c.close = Some((i, t));
                }
            }
            "OUT" => {
                let fd = num(p.next());
                let d = unhex(p.next().unwrap_or("-"));
                if fd == 1 {
                    h.out.extend(&d);
                    let off = h.out.len();
                    h.out_at.push((off, At { i, t, tid }));
                    h.writers.insert(tid);
                } else {
                    h.err.extend(&d);
                }
            }
            "IN" => h.ins.push((i, t, num(p.next()) as usize)),
            "HANDLER" => h.handler.push((i, t)),
            "SIGINT" => h.sigints.push((i, t, p.next() == Some("1"))),
            "WALLJUMP" => h.walljumps.push((i, t, num(p.next()))),
            "FWRITE" => {
                let path = p.next().unwrap_or("").to_string();
                let len = num(p.next());
                let r = num(p.next());
                h.fwrites.push((i, t, tid, path, len, r));
            }
            "OPEN" => {
                let path = p.next().unwrap_or("").to_string();
                let w = p.next() == Some("1");
                h.opens.push((i, tid, path, w, num(p.next())));
            }
            "FREAD" => {
                let path = p.next().unwrap_or("").to_string();
                h.freads.push((i, path, num(p.next())));
            }
            "RCLOSE" => h.rcloses.push((i, p.next().unwrap_or("").to_string())),
            "HELD" => h.held = Some(num(p.next())),
            "HEAP" => h.heap.push((i, num(p.next()))),
            "FREADINT" => h.freadint.push((i, tid, p.next().unwrap_or("").to_string())),
            "FREADERR" => h.freaderr.push((i, tid, p.next().unwrap_or("").to_string())),
            "DIRERR" => h.direrr = true,
            "STATERR" => h.staterr.push(p.next().unwrap_or("").to_string()),
            "HARNESS" => h.harness = Some(line.to_string()),
            "THREAD" => h.threads_at_end.push(line.splitn(4, ' ').nth(3).unwrap_or("").to_string()),
            "END" => {
                h.end = Some(match p.next() {
                    Some("exit") => End::Exit(num(p.next()) as i32),
                    Some("deadlock") => End::Deadlock,
                    Some("livelock") => End::Livelock(p.next().unwrap_or("").into()),
                    Some("killed") => End::Killed,
                    _ => End::Sigint,
                });
            }
            _ => {}
        }
    }
    h
}

fn owner(parents: &BTreeMap<usize, (usize, usize)>, open: &HashMap<usize, usize>, tid: usize) -> usize {
    let mut o = tid;
    loop {
        if open.contains_key(&o) {
            return o;
        }
        match parents.get(&o) {
            Some((p, _)) => o = *p,
            None => return tid,
        }
    }
}

impl Hist {
    fn at_offset(&self, off: usize) -> &At {
        let k = self.out_at.partition_point(|(e, _)| *e <= off);
        &self.out_at[k.min(self.out_at.len() - 1)].1
    }
    /// Standard output cut into report blocks and other lines; the second
    /// value lists everything that is not well formed.
    pub fn items(&self) -> (Vec<Item>, Vec<String>) {
        let mut items = Vec::new();
        let mut bad = Vec::new();
        let text = String::from_utf8_lossy(&self.out).to_string();
        if text.len() != self.out.len() {
            bad.push("output is not text".to_string());
            return (items, bad);
        }
        let mut off = 0;
        let mut cur: Option<(usize, String, Vec<String>)> = None;
        for line in text.split_inclusive('\n') {
            let start = off;
            off += line.len();
            let body = match line.strip_suffix('\n') {
                Some(b) => b,
                None => {
                    if self.end == Some(End::Killed) {
                        continue;
                    }
                    bad.push(format!("last line is not terminated: {:?}", line));
                    line
                }
            };
            if let Some(name) = body.strip_prefix("=== TEST  ") {
                if let Some((_, n, _)) = &cur {
                    bad.push(format!("block of {} is broken by the start of a block of {}", n, name));
                }
                cur = Some((start, name.to_string(), Vec::new()));
                continue;
            }
            let verdict = body.strip_prefix("--- PASS  ").map(|r| (true, r)).or(body.strip_prefix("--- FAIL  ").map(|r| (false, r)));
            if let Some((pass, rest)) = verdict {
                let (name, dur) = match rest.rsplit_once(" (") {
                    Some((n, d)) if d.ends_with(')') => (n.to_string(), d[..d.len() - 1].to_string()),
                    _ => (rest.to_string(), String::new()),
                };
                match cur.take() {
                    Some((s, n, lines)) => {
                        if n != name {
                            bad.push(format!("block of {} ends with the verdict of {}", n, name));
                        }
                        let (a, b) = (self.at_offset(s).clone(), self.at_offset(off - 1).clone());
                        items.push(Item { i: a.i, t: a.t, i_end: b.i, t_end: b.t, tid: a.tid, kind: ItemKind::Block { name: n, lines, pass, dur } });
                    }
                    None => bad.push(format!("verdict line without a block: {:?}", body)),
                }
                continue;
            }
            match &mut cur {
                Some((_, _, lines)) => lines.push(body.to_string()),
                None => {
                    let (a, b) = (self.at_offset(start).clone(), self.at_offset(off - 1).clone());
                    items.push(Item { i: a.i, t: a.t, i_end: b.i, t_end: b.t, tid: a.tid, kind: ItemKind::Line(body.to_string()) });
                }
            }
        }
        if let Some((_, n, _)) = cur {
            if self.end != Some(End::Killed) {
                bad.push(format!("block of {} has no verdict line", n));
            }
        }
        (items, bad)
    }
}

/// nanoseconds of a printed duration
pub fn parse_dur(s: &str) -> Option<u64> {
    let (num, unit) = s.split_at(s.find(|c: char| !(c.is_ascii_digit() || c == '.'))?);
    let scale: u64 = match unit {
        "ns" => 1,
        "µs" => 1_000,
        "ms" => 1_000_000,
        "s" => 1_000_000_000,
        _ => return None,
    };
    let (a, b) = num.split_once('.').unwrap_or((num, ""));
    let mut v = a.parse::<u64>().ok()? * scale;
    let mut place = scale;
    for c in b.chars() {
        place /= 10;
        v += place * c.to_digit(10)? as u64;
    }
    Some(v)
}
