//! The simulated network: sockets as the program sees them, TCP with
//! latency, segmentation and resets, name resolution, and HTTP(S) servers.
use crate::core::*;

use crate::raw;
use proto::*;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    New,
    Connecting,
    Connected,
    Failed,
}

pub struct Sock {
    pub refs: u32,
    pub v6: bool,
    pub nonblock: bool,
    pub rcvtimeo: u64,
    pub sndtimeo: u64,
    pub st: St,
    pub so_error: i32,
    pub scope: u32,
    pub peer: Option<(IpAddr, u16)>,
    pub rx: VecDeque<u8>,
    pub rx_fin: bool,
    pub rx_err: i32,
    pub broken: bool,
    pub wr_shut: bool,
    pub inflight: usize,
    pub sndbuf: usize,
    pub c2s_last: u64,
    pub srv: Option<Box<Srv>>,
    pub outcome: u8,
    pub host: usize,
}

pub struct Srv {
    service: usize,
    tls: Option<Box<rustls::ServerConnection>>,
    hs_logged: bool,
    plain: Vec<u8>,
    reqs: u32,
    busy: bool,
    pending: Vec<u8>,
    last: u64,
    closed: bool,
    fault: u8,
    tls_fault: u32,
    sent_raw: bool,
}

#[derive(Default)]
pub struct Net {
    pub socks: Vec<Sock>,
    pub fds: BTreeMap<i32, usize>,
    pub configs: BTreeMap<String, Arc<rustls::ServerConfig>>,
}

pub fn n() -> &'static mut Net {
    &mut s().net
}

fn server_config(name: &str) -> Option<Arc<rustls::ServerConfig>> {
    use rustls::pki_types::pem::PemObject;
    use rustls::pki_types::{CertificateDer, PrivateKeyDer};
    if let Some(c) = n().configs.get(name) {
        return Some(c.clone());
    }
    let (cert, v12) = match name.strip_suffix("/12") {
        Some(c) => (c, true),
        None => (name, false),
    };
    let dir = s().plan.certs.clone();
    let certs: Vec<CertificateDer<'static>> =
        CertificateDer::pem_file_iter(format!("{dir}/{cert}.pem")).ok()?.collect::<Result<_, _>>().ok()?;
    let key = PrivateKeyDer::from_pem_file(format!("{dir}/{cert}.key")).ok()?;
    let provider = Arc::new(rustls::crypto::ring::default_provider());
    let versions: &[&rustls::SupportedProtocolVersion] =
        if v12 { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13, &rustls::version::TLS12] };
    let mut config = rustls::ServerConfig::builder_with_provider(provider)
        .with_protocol_versions(versions)
        .ok()?
        .with_no_client_auth()
        .with_single_cert(certs, key)
        .ok()?;
    // every connection shows its certificate
    config.send_tls13_tickets = 0;
    config.session_storage = Arc::new(rustls::server::NoServerSessionStorage {});
    let config = Arc::new(config);
    n().configs.insert(name.to_string(), config.clone());
    Some(config)
}

pub fn init() {
    let mut names: Vec<String> = s().plan.services.iter().map(|s| s.tls.clone()).collect();
    names.sort();
    names.dedup();
    for name in names {
        if !name.is_empty() && name != "plaintext" && name != "garbage" && server_config(&name).is_none() {
            ev!("HARNESS no certificate {}", name);
            unsafe { raw::exit_group(EXIT_HARNESS) }
        }
    }
}

pub fn fire(ev: Ev) {
    match ev {
        Ev::ConnDone(k, errno) => conn_done(k, errno),
        Ev::ToServer(k, data) => to_server(k, data),
        Ev::ToClient(k, data) => {
            let c = &mut n().socks[k];
            if c.refs > 0 && c.rx_err == 0 && !c.broken {
                c.rx.extend(data);
                wake(Wait::SockRead(k));
                wake(Wait::Poll);
            }
        }
        Ev::ToClientEnd(k, rst) => {
            let c = &mut n().socks[k];
            if rst {
                ev!("RST {}", c.scope);
                c.rx_err = libc::ECONNRESET;
                c.broken = true;
                c.inflight = 0;
            } else {
                ev!("FIN {}", c.scope);
                c.rx_fin = true;
            }
            wake(Wait::SockRead(k));
            wake(Wait::SockWrite(k));
            wake(Wait::Poll);
        }
        Ev::Respond(k) => respond(k),
        _ => {}
    }
}

// ------------------------------------------------------------ client side

pub fn sock_of(fd: i32) -> Option<usize> {
    n().fds.get(&fd).copied()
}

pub fn socket(v6: bool, nonblock: bool) -> i64 {
    let me = s().cur as u32;
    let v = choose(me, K::SockFail, 3);
    if v > 0 {
        let e = [libc::EMFILE, libc::ENOBUFS][v as usize - 1];
        ev!("SOCKET -{}", e);
        return -e as i64;
    }
    let fd = unsafe { raw::sys3(libc::SYS_eventfd2, 0, libc::O_CLOEXEC as u64, 0) };
    if fd < 0 {
        return fd;
    }
    let k = n().socks.len();
    n().socks.push(Sock {
        refs: 1,
        v6,
        nonblock,
        rcvtimeo: 0,
        sndtimeo: 0,
        st: St::New,
        so_error: 0,
        scope: 0,
        peer: None,
        rx: VecDeque::new(),
        rx_fin: false,
        rx_err: 0,
        broken: false,
        wr_shut: false,
        inflight: 0,
        sndbuf: 1 << 20,
        c2s_last: 0,
        srv: None,
        outcome: 0,
        host: usize::MAX,
    });
    n().fds.insert(fd as i32, k);
    fd
}

pub unsafe fn parse_addr(addr: *const libc::sockaddr) -> Option<(IpAddr, u16)> {
    match (*addr).sa_family as i32 {
        libc::AF_INET => {
            let a = &*(addr as *const libc::sockaddr_in);
            Some((IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))), u16::from_be(a.sin_port)))
        }
        libc::AF_INET6 => {
            let a = &*(addr as *const libc::sockaddr_in6);
            Some((IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)), u16::from_be(a.sin6_port)))
        }
        _ => None,
    }
}

pub unsafe fn fill_addr(ip: IpAddr, port: u16, out: *mut libc::sockaddr_storage) -> u32 {
    std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::sockaddr_storage>());
    match ip {
        IpAddr::V4(v) => {
            let a = &mut *(out as *mut libc::sockaddr_in);
            a.sin_family = libc::AF_INET as u16;
            a.sin_port = port.to_be();
            a.sin_addr.s_addr = u32::from(v).to_be();
            std::mem::size_of::<libc::sockaddr_in>() as u32
        }
        IpAddr::V6(v) => {
            let a = &mut *(out as *mut libc::sockaddr_in6);
            a.sin6_family = libc::AF_INET6 as u16;
            a.sin6_port = port.to_be();
            a.sin6_addr.s6_addr = v.octets();
            std::mem::size_of::<libc::sockaddr_in6>() as u32
        }
    }
}

fn find_addr(ip: IpAddr) -> Option<(usize, usize)> {
    for (h, host) in s().plan.hosts.iter().enumerate() {
        for (a, addr) in host.addrs.iter().enumerate() {
            if addr.ip.parse::<IpAddr>() == Ok(ip) {
                return Some((h, a));
            }
        }
    }
    None
}

pub fn connect(k: usize, ip: IpAddr, port: u16) -> i64 {
    let me = s().cur;
    let c = &mut n().socks[k];
    match c.st {
        St::Connected => return -libc::EISCONN as i64,
        St::Connecting => return -libc::EALREADY as i64,
        _ => {}
    }
    let idx = s().threads[me].conns;
    s().threads[me].conns += 1;
    let scope = 100_000 + me as u32 * 100_000 + idx;
    c.scope = scope;
    c.peer = Some((ip, port));
    c.st = St::Connecting;
    let (host, mut outcome, mut delay) = match find_addr(ip) {
        Some((h, a)) => {
            let ad = &s().plan.hosts[h].addrs[a];
            (h, ad.outcome, ad.delay)
        }
        None => (usize::MAX, 3, 0),
    };
    c.host = host;
    ev!("CONNECT {} {} {} {}", scope, ip, port, if host == usize::MAX { "?" } else { &s().plan.hosts[host].name });
    let v = choose(scope, K::ConnOutcome, 4);
    if v > 0 && outcome == 0 {
        outcome = v as u8;
    }
    delay += choose(scope, K::ConnDelay, 1000) as u64 * MS;
    n().socks[k].outcome = outcome;
    let now = s().now;
    match outcome {
        0 => post(now + delay, Ev::ConnDone(k, 0)),
        1 => post(now + delay, Ev::ConnDone(k, libc::ECONNREFUSED)),
        2 => post(now + 127 * SEC, Ev::ConnDone(k, libc::ETIMEDOUT)),
        _ => post(now + delay, Ev::ConnDone(k, libc::EHOSTUNREACH)),
    }
    if n().socks[k].nonblock {
        return -libc::EINPROGRESS as i64;
    }
    while n().socks[k].st == St::Connecting {
        let timeo = n().socks[k].sndtimeo;
        let dl = if timeo == 0 { FOREVER } else { s().now + timeo };
        if block(Wait::Connect(k), dl) && n().socks[k].st == St::Connecting {
            return -libc::EINPROGRESS as i64;
        }
    }
    let c = &mut n().socks[k];
    let e = std::mem::take(&mut c.so_error);
    if c.st == St::Connected {
        0
    } else {
        -e as i64
    }
}

fn conn_done(k: usize, errno: i32) {
    let c = &mut n().socks[k];
    ev!("CONNRES {} {} {}", c.scope, errno, (c.refs > 0) as u8);
    if errno != 0 {
        c.st = St::Failed;
        c.so_error = errno;
    } else {
        c.st = St::Connected;
        let service = s().plan.hosts[c.host].service;
        let sv = &s().plan.services[service];
        if sv.sndbuf > 0 {
            c.sndbuf = sv.sndbuf;
        }
        let scope = c.scope;
        let v = choose(scope, K::SrvFault, sv.faults.len() as u32 + 1);
        let fault = if v > 0 { sv.faults[v as usize - 1] } else { 0 };
        let is_tls = !sv.tls.is_empty() && sv.tls != "plaintext" && sv.tls != "garbage";
        let tls_fault = if sv.tls.is_empty() { 0 } else { choose(scope, K::TlsFault, 6) };
        let tls = if is_tls {
            server_config(&sv.tls).and_then(|c| rustls::ServerConnection::new(c).ok()).map(Box::new)
        } else {
            None
        };
        ev!("ACCEPT {} {} {}", scope, fault, tls_fault);
        n().socks[k].srv = Some(Box::new(Srv {
            service,
            tls,
            hs_logged: false,
            plain: Vec::new(),
            reqs: 0,
            busy: false,
            pending: Vec::new(),
            last: 0,
            closed: false,
            fault,
            tls_fault,
            sent_raw: false,
        }));
        if fault == 9 {
            srv_end(k, true);
        }
    }
    wake(Wait::Connect(k));
    wake(Wait::SockWrite(k));
    wake(Wait::Poll);
}

/// The client's system send: Ok(bytes taken) or -errno. `block`: may wait.
pub fn send(k: usize, data: &[u8], dontwait: bool) -> i64 {
    let me = s().cur as u32;
    loop {
        let c = &mut n().socks[k];
        if c.st != St::Connected {
            return -(if c.st == St::Connecting { libc::EAGAIN } else { libc::ENOTCONN }) as i64;
        }
        if c.rx_err != 0 {
            c.rx_err = 0;
            c.rx_fin = true;
            ev!("SENDERR {}", c.scope);
            return -libc::ECONNRESET as i64;
        }
        if c.broken || c.wr_shut {
            ev!("SENDERR {}", c.scope);
            return -libc::EPIPE as i64;
        }
        if choose(me, K::SendErr, 2) == 1 {
            let c = &mut n().socks[k];
            c.broken = true;
            c.rx_fin = true;
            c.inflight = 0;
            ev!("SENDERR {}", c.scope);
            return -libc::ECONNRESET as i64;
        }
        if data.is_empty() {
            return 0;
        }
        let c = &mut n().socks[k];
        let free = c.sndbuf.saturating_sub(c.inflight);
        if free > 0 {
            let mut take = free.min(data.len());
            if take > 1 && choose(me, K::SendShort, 2) == 1 {
                take = 1 + (keyed(s().plan.seed, me, 201, s().seq as u32) % (take as u64 - 1)) as usize;
            }
            let c = &mut n().socks[k];
            c.inflight += take;
            let at = (s().now + latency(k)).max(n().socks[k].c2s_last);
            n().socks[k].c2s_last = at;
            ev!("SEND {} {} {:08x}", n().socks[k].scope, take, fnv(&data[..take]));
            post(at, Ev::ToServer(k, data[..take].to_vec()));
            // blocking sends take everything before returning
            if take < data.len() && take == free && !n().socks[k].nonblock && !dontwait {
                let mut done = take;
                while done < data.len() {
                    let timeo = n().socks[k].sndtimeo;
                    let dl = if timeo == 0 { FOREVER } else { s().now + timeo };
                    ev!("SWAIT {}", n().socks[k].scope);
                    let late = block(Wait::SockWrite(k), dl);
                    let c = &mut n().socks[k];
                    if c.broken || c.rx_err != 0 || late {
                        return done as i64;
                    }
                    let free = c.sndbuf.saturating_sub(c.inflight);
                    let take = free.min(data.len() - done);
                    if take > 0 {
                        c.inflight += take;
                        let at = (s().now + latency(k)).max(n().socks[k].c2s_last);
                        n().socks[k].c2s_last = at;
                        ev!("SEND {} {} {:08x}", n().socks[k].scope, take, fnv(&data[done..done + take]));
                        post(at, Ev::ToServer(k, data[done..done + take].to_vec()));
                        done += take;
                    }
                }
                return done as i64;
            }
            return take as i64;
        }
        ev!("SWAIT {}", c.scope);
        if c.nonblock || dontwait {
            return -libc::EAGAIN as i64;
        }
        let dl = if c.sndtimeo == 0 { FOREVER } else { s().now + c.sndtimeo };
        if block(Wait::SockWrite(k), dl) {
            return -libc::EAGAIN as i64;
        }
    }
}

pub fn recv(k: usize, out: &mut [u8], peek: bool, dontwait: bool) -> i64 {
    let me = s().cur as u32;
    ev!("RCALL {}", n().socks[k].scope);
    loop {
        let c = &mut n().socks[k];
        if c.st != St::Connected {
            return -libc::ENOTCONN as i64;
        }
        if !c.rx.is_empty() {
            if out.is_empty() {
                return 0;
            }
            let mut take = c.rx.len().min(out.len());
            if take > 1 && choose(me, K::RecvShort, 2) == 1 {
                take = 1 + (keyed(s().plan.seed, me, 202, s().seq as u32) % (take as u64 - 1)) as usize;
            }
            if choose(me, K::RecvErr, 2) == 1 {
                let c = &mut n().socks[k];
                c.rx.clear();
                c.broken = true;
                c.rx_fin = true;
                ev!("RECVERR {}", c.scope);
                return -libc::ECONNRESET as i64;
            }
            let c = &mut n().socks[k];
            if peek {
                for (i, b) in c.rx.iter().take(take).enumerate() {
                    out[i] = *b;
                }
            } else {
                for (i, b) in c.rx.drain(..take).enumerate() {
                    out[i] = b;
                }
            }
            ev!("RECV {} {} {:08x}", n().socks[k].scope, take, fnv(&out[..take]));
            return take as i64;
        }
        if c.rx_err != 0 {
            c.rx_err = 0;
            c.rx_fin = true;
            ev!("RECVERR {}", n().socks[k].scope);
            return -libc::ECONNRESET as i64;
        }
        if c.rx_fin {
            ev!("RECV {} 0", n().socks[k].scope);
            return 0;
        }
        if c.nonblock || dontwait {
            return -libc::EAGAIN as i64;
        }
        let dl = if c.rcvtimeo == 0 { FOREVER } else { s().now + c.rcvtimeo };
        if block(Wait::SockRead(k), dl) {
            return -libc::EAGAIN as i64;
        }
    }
}

pub fn close(fd: i32) -> bool {
    let k = match n().fds.remove(&fd) {
        Some(k) => k,
        None => return false,
    };
    let c = &mut n().socks[k];
    c.refs -= 1;
    if c.refs == 0 && c.st != St::New {
        ev!("CLOSE {} {}", c.scope, c.rx.len());
    }
    true
}

/// poll bits
pub fn ready(k: usize) -> i16 {
    let c = &n().socks[k];
    let mut r = 0;
    match c.st {
        St::New => r |= libc::POLLOUT | libc::POLLHUP,
        St::Connecting => {}
        St::Failed => r |= libc::POLLOUT | libc::POLLERR | libc::POLLHUP | libc::POLLIN,
        St::Connected => {
            if !c.rx.is_empty() || c.rx_fin || c.rx_err != 0 {
                r |= libc::POLLIN;
            }
            if c.rx_fin {
                r |= libc::POLLRDHUP;
            }
            if c.rx_err != 0 {
                r |= libc::POLLERR | libc::POLLHUP;
            }
            if c.broken || c.sndbuf > c.inflight {
                r |= libc::POLLOUT;
            }
        }
    }
    r
}

fn latency(k: usize) -> u64 {
    let scope = n().socks[k].scope;
    let base = match &n().socks[k].srv {
        Some(srv) => s().plan.services[srv.service].latency,
        None => 0,
    };
    base + choose(scope, K::NetLatency, 1000) as u64 * 100_000
}

// ------------------------------------------------------------ server side

fn to_server(k: usize, data: Vec<u8>) {
    let scope = n().socks[k].scope;
    {
        let c = &mut n().socks[k];
        c.inflight = c.inflight.saturating_sub(data.len());
        wake(Wait::SockWrite(k));
        wake(Wait::Poll);
    }
    let c = &mut n().socks[k];
    if c.broken {
        return;
    }
    let srv = match c.srv.as_mut() {
        Some(x) => x,
        None => return,
    };
    let tls_name = &s().plan.services[srv.service].tls;
    if tls_name == "plaintext" || tls_name == "garbage" {
        ev!("RAW {} {}", scope, Hex(&data));
        if !srv.sent_raw {
            srv.sent_raw = true;
            let reply = if tls_name == "plaintext" {
                b"HTTP/1.1 200 OK\r\nSid: 1\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok".to_vec()
            } else {
                let mut v = Vec::new();
                for i in 0..60 {
                    v.extend_from_slice(&keyed(s().plan.seed, scope, 203, i).to_le_bytes());
                }
                v
            };
            emit(k, reply, 1);
            srv_end(k, false);
        }
        return;
    }
    if srv.tls.is_some() {
        match srv.tls_fault {
            1 | 3 if !srv.closed => {
                let rst = srv.tls_fault == 1;
                ev!("RAW {} {}", scope, Hex(&data));
                srv_end(k, rst);
                return;
            }
            2 if !srv.closed => {
                let mut v = Vec::new();
                for i in 0..20 {
                    v.extend_from_slice(&keyed(s().plan.seed, scope, 203, i).to_le_bytes());
                }
                emit(k, v, 1);
                srv_end(k, false);
                return;
            }
            _ => {}
        }
        let mut plain = Vec::new();
        let mut bad = None;
        {
            let tls = srv.tls.as_mut().unwrap();
            let mut rest = &data[..];
            while !rest.is_empty() {
                match tls.read_tls(&mut rest) {
                    Ok(0) => break,
                    Ok(_) => {}
                    Err(_) => break,
                }
                match tls.process_new_packets() {
                    Ok(_) => {}
                    Err(e) => {
                        bad = Some(format!("{:?}", e));
                        break;
                    }
                }
                let mut tmp = [0u8; 16384];
                loop {
                    match tls.reader().read(&mut tmp) {
                        Ok(0) => break,
                        Ok(m) => plain.extend_from_slice(&tmp[..m]),
                        Err(_) => break,
                    }
                }
            }
        }
        if srv.tls_fault == 4 {
            // the server stalls in the middle of the handshake, then goes on
            srv.tls_fault = 0;
            let stall = s().plan.services[srv.service].stall;
            srv.last = srv.last.max(s().now + stall);
        }
        if !n().socks[k].srv.as_ref().unwrap().closed {
            flush_tls(k);
        }
        let c = &mut n().socks[k];
        let srv = c.srv.as_mut().unwrap();
        if !srv.hs_logged && !srv.tls.as_ref().unwrap().is_handshaking() {
            srv.hs_logged = true;
            ev!("TLSHS {}", scope);
        }
        if let Some(e) = bad {
            if !n().socks[k].srv.as_ref().unwrap().closed {
                ev!("TLSERR {} {}", scope, e.replace(' ', "_"));
                srv_end(k, false);
            }
            return;
        }
        if !plain.is_empty() {
            on_plain(k, plain);
        }
    } else {
        on_plain(k, data);
    }
}

fn flush_tls(k: usize) {
    let mut out = Vec::new();
    if let Some(srv) = n().socks[k].srv.as_mut() {
        if let Some(tls) = srv.tls.as_mut() {
            while tls.wants_write() {
                if tls.write_tls(&mut out).is_err() {
                    break;
                }
            }
        }
    }
    if !out.is_empty() {
        emit(k, out, 1);
    }
}

/// Sends bytes to the client in up to `segs` segments.
fn emit(k: usize, data: Vec<u8>, segs: usize) {
    let scope = n().socks[k].scope;
    let seed = s().plan.seed;
    let mut cuts: Vec<usize> = Vec::new();
    if segs > 1 && data.len() > 1 {
        for i in 0..segs - 1 {
            let r = keyed(seed, scope, 204, (i as u32) << 8 | data.len() as u32 & 0xff);
            // short pieces are where parsers break: half of the cuts fall in the first 300 bytes
            let span = if r >> 63 == 1 { data.len().min(300) } else { data.len() };
            cuts.push(1 + (r % span.max(2) as u64 - 1).min(data.len() as u64 - 2) as usize);
        }
    }
    cuts.push(data.len());
    cuts.sort();
    cuts.dedup();
    let gap_hi = n().socks[k].srv.as_ref().map(|v| s().plan.services[v.service].gap_hi).unwrap_or(0);
    let mut from = 0;
    for cut in cuts {
        let gap = choose(scope, K::SrvGap, 1000) as u64 * gap_hi / 1000;
        let lat = latency(k);
        let now = s().now;
        let srv = n().socks[k].srv.as_mut().unwrap();
        let at = (srv.last + gap).max(now + lat);
        srv.last = at;
        post(at, Ev::ToClient(k, data[from..cut].to_vec()));
        from = cut;
    }
}

fn srv_end(k: usize, rst: bool) {
    let lat = latency(k);
    let now = s().now;
    if let Some(srv) = n().socks[k].srv.as_mut() {
        if srv.closed {
            return;
        }
        srv.closed = true;
        let at = srv.last.max(now + lat);
        post(at, Ev::ToClientEnd(k, rst));
    }
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

fn on_plain(k: usize, data: Vec<u8>) {
    let scope = n().socks[k].scope;
    ev!("RX {} {}", scope, Hex(&data));
    let c = &mut n().socks[k];
    let srv = c.srv.as_mut().unwrap();
    if srv.closed {
        return;
    }
    srv.plain.extend_from_slice(&data);
    if srv.busy {
        return;
    }
    let (head, skip) = match (find(&srv.plain, b"\r\n\r\n"), find(&srv.plain, b"\n\n")) {
        (Some(a), Some(b)) if a < b => (a, 4),
        (Some(a), None) => (a, 4),
        (_, Some(b)) => (b, 2),
        _ => return,
    };
    let text = String::from_utf8_lossy(&srv.plain[..head]).to_string();
    let mut need = 0usize;
    for line in text.lines().skip(1) {
        if let Some((name, value)) = line.split_once(':') {
            if name.trim().eq_ignore_ascii_case("content-length") {
                need = value.trim().parse().unwrap_or(0);
            }
        }
    }
    if srv.plain.len() < head + skip + need {
        return;
    }
    srv.busy = true;
    srv.pending = srv.plain[..head + skip + need].to_vec();
    let idx = srv.reqs;
    srv.reqs += 1;
    ev!("REQ {} {} {}", scope, idx, Hex(&srv.pending));
    let sv = &s().plan.services[srv.service];
    let mut think = sv.think_lo;
    if sv.think_hi > sv.think_lo {
        think += (sv.think_hi - sv.think_lo) * choose_rate(scope, K::SrvThink, 1000, 65536) as u64 / 999;
    }
    post(s().now + think, Ev::Respond(k));
}

fn expand(body: &str, sid: u64, q: &dyn Fn(&str) -> String) -> Vec<u8> {
    let mut text = body.replace("@SID@", &sid.to_string());
    while let Some(i) = text.find("@Q:") {
        let j = match text[i + 3..].find('@') {
            Some(j) => i + 3 + j,
            None => break,
        };
        let v = q(&text[i + 3..j]);
        text.replace_range(i..=j, &v);
    }
    while let Some(i) = text.find("@FILL:") {
        let j = match text[i + 6..].find('@') {
            Some(j) => i + 6 + j,
            None => break,
        };
        let m: usize = text[i + 6..j].parse().unwrap_or(0);
        let mut fill = String::with_capacity(m);
        let mut x = sid;
        while fill.len() < m {
            x = mix(x);
            fill.push((b'a' + (x % 26) as u8) as char);
        }
        text.replace_range(i..=j, &fill);
    }
    while let Some(i) = text.find("@NEST:") {
        // @NEST:<text>:<count>@ repeats the text
        let j = match text[i + 6..].find('@') {
            Some(j) => i + 6 + j,
            None => break,
        };
        let inner = text[i + 6..j].to_string();
        let v = match inner.rsplit_once(':') {
            Some((t, m)) => t.repeat(m.parse().unwrap_or(0)),
            None => String::new(),
        };
        text.replace_range(i..=j, &v);
    }
    text.into_bytes()
}

fn respond(k: usize) {
    let scope = n().socks[k].scope;
    let seed = s().plan.seed;
    let c = &mut n().socks[k];
    if c.broken {
        return;
    }
    let srv = c.srv.as_mut().unwrap();
    if srv.closed {
        return;
    }
    let service = srv.service;
    let sv = &s().plan.services[service];
    let sid = scope as u64 * 10 + (srv.reqs as u64 - 1).min(9);
    let pending = std::mem::take(&mut srv.pending);
    let fault = srv.fault;
    let tls_fault = srv.tls_fault;
    let line = pending.split(|b| *b == b'\n').next().unwrap_or(&[]);
    let line = String::from_utf8_lossy(line).to_string();
    let mut parts = line.split_whitespace();
    let method = parts.next().unwrap_or("").to_string();
    let target = parts.next().unwrap_or("").to_string();
    let q = |name: &str| -> String {
        let query = target.split_once('?').map(|x| x.1).unwrap_or("");
        for pair in query.split('&') {
            if let Some((a, b)) = pair.split_once('=') {
                if a == name {
                    return b.to_string();
                }
            }
        }
        String::new()
    };
    let pick = |kind: K, len: usize| choose_rate(scope, kind, len as u32, sv.vary) as usize;
    let (status, reason) = sv.statuses.get(pick(K::SrvStatus, sv.statuses.len())).cloned().unwrap_or((200, "OK".into()));
    let headers = sv.headers.get(pick(K::SrvHdr, sv.headers.len())).cloned().unwrap_or_default();
    let body = sv.bodies.get(pick(K::SrvBody, sv.bodies.len())).cloned().unwrap_or_default();
    let framing = sv.framings.get(pick(K::SrvFraming, sv.framings.len())).copied().unwrap_or(0);
    let (version, reason) = match reason.strip_prefix("1.0|") {
        Some(r) => ("HTTP/1.0", r.to_string()),
        None => ("HTTP/1.1", reason),
    };
    let mut body = expand(&body, sid, &q);
    let bodyless = method == "HEAD" || status == 204 || status == 304 || (100..200).contains(&status);
    let mut head = if reason.is_empty() {
        format!("{} {}\r\n", version, status)
    } else {
        format!("{} {} {}\r\n", version, status, reason)
    };
    // how the head is written
    let style = framing / 10;
    let framing = framing % 10;
    let line = |a: &str, b: &str| match style {
        1 | 4 => format!("{}:{}\r\n", a, b),
        3 => format!("{}:  {} \t\r\n", a, b),
        5 => format!("{}:\t{}\r\n", a, b),
        6 => format!("{}: {}   \r\n", a, b),
        _ => format!("{}: {}\r\n", a, b),
    };
    let length = match style {
        1 => "content-length",
        2 => "CONTENT-LENGTH",
        3 => "Content-length",
        _ => "Content-Length",
    };
    head.push_str(&line("Sid", &sid.to_string()));
    for (a, b) in &headers {
        head.push_str(&line(a, &String::from_utf8_lossy(&expand(b, sid, &q))));
    }
    match framing {
        0 => {
            if status != 204 && !(100..200).contains(&status) {
                head.push_str(&line(length, &body.len().to_string()));
            }
        }
        2 => head.push_str("Transfer-Encoding: chunked\r\n"),
        _ => {}
    }
    head.push_str("Connection: close\r\n\r\n");
    if bodyless {
        body.clear();
    }
    let mut wire = body.clone();
    if framing == 2 && !bodyless {
        wire = Vec::new();
        let mut at = 0;
        let mut i = 0;
        while at < body.len() {
            let m = (1 + keyed(seed, scope, 205, i) as usize % 40).min(body.len() - at);
            i += 1;
            wire.extend_from_slice(format!("{:x}\r\n", m).as_bytes());
            wire.extend_from_slice(&body[at..at + m]);
            wire.extend_from_slice(b"\r\n");
            at += m;
        }
        wire.extend_from_slice(b"0\r\n\r\n");
    }
    let headlen = head.len();
    let mut full = head.into_bytes();
    full.extend_from_slice(&wire);
    let mut fault = fault;
    if fault == 6 && !sv.hostile.is_empty() {
        let h = &sv.hostile[(keyed(seed, scope, 206, 0) % sv.hostile.len() as u64) as usize];
        full = expand(&String::from_utf8_lossy(&unhex(h)), sid, &q);
        if let Some(bytes) = h.strip_prefix("raw:") {
            full = unhex(bytes);
        }
    } else if fault == 6 {
        fault = 0;
    }
    if fault == 4 && wire.is_empty() {
        fault = 3;
    }
    let total = full.len();
    let cut = match fault {
        1 | 2 => 0,
        3 => choose_rate(scope, K::SrvFaultPos, headlen as u32 - 1, 65536) as usize,
        4 => headlen + choose_rate(scope, K::SrvFaultPos, wire.len() as u32, 65536) as usize,
        5 => choose_rate(scope, K::SrvFaultPos, total as u32, 65536) as usize,
        _ => total,
    };
    // position choice 0 (a dropped decision on replay) of a truncation in the body: nothing but the head
    ev!("RESP {} {} {} {} {} {} {} {}", scope, sid, status, framing, fault, cut, headlen, Hex(&full));
    let sent = full[..cut].to_vec();
    let segs = 1 + choose_rate(scope, K::SrvSeg, sv.max_segs.max(1), 45000) as usize;
    let notify = !matches!(fault, 1..=5 | 11);
    let mut wire_out = sent;
    let srv = n().socks[k].srv.as_mut().unwrap();
    if let Some(tls) = srv.tls.as_mut() {
        tls.set_buffer_limit(None);
        let _ = tls.writer().write_all(&wire_out);
        if notify && fault != 8 {
            tls.send_close_notify();
        }
        let mut out = Vec::new();
        while tls.wants_write() {
            if tls.write_tls(&mut out).is_err() {
                break;
            }
        }
        if tls_fault == 5 && !out.is_empty() {
            let p = 5 + (keyed(seed, scope, 207, 0) % (out.len().max(6) as u64 - 5)) as usize;
            let p = p.min(out.len() - 1);
            let mut p = p;
            // most often within the data of a record that holds a part of the response
            let mut data = Vec::new();
            let mut at = 0;
            while at + 5 <= out.len() {
                let m = u16::from_be_bytes([out[at + 3], out[at + 4]]) as usize;
                let last = at + 5 + m >= out.len();
                if out[at] == 23 && !(last && notify && fault != 8) {
                    data.extend(at + 5..(at + 5 + m).min(out.len()));
                }
                at += 5 + m;
            }
            if !data.is_empty() && keyed(seed, scope, 207, 2) % 4 > 0 {
                p = data[keyed(seed, scope, 207, 3) as usize % data.len()];
            }
            if data.contains(&p) {
                ev!("DAMAGE {}", scope);
            }
            out[p] ^= 1 << (keyed(seed, scope, 207, 1) % 8);
        }
        wire_out = out;
    }
    if fault == 7 && wire_out.len() > 1 {
        let p = 1 + (keyed(seed, scope, 208, 0) % (wire_out.len() as u64 - 1)) as usize;
        let tail = wire_out.split_off(p);
        emit(k, wire_out, segs);
        n().socks[k].srv.as_mut().unwrap().last += sv.stall;
        emit(k, tail, segs);
    } else if !wire_out.is_empty() {
        emit(k, wire_out, segs);
    }
    srv_end(k, matches!(fault, 2 | 5 | 8));
}

// ------------------------------------------------------------ resolution

pub fn resolve(name: &str) -> Result<Vec<IpAddr>, i32> {
    if let Ok(ip) = name.trim_start_matches('[').trim_end_matches(']').parse::<IpAddr>() {
        return Ok(vec![ip]);
    }
    let me = s().cur as u32;
    let h = match s().plan.hosts.iter().position(|h| h.name.eq_ignore_ascii_case(name)) {
        Some(h) => h,
        None => {
            ev!("DNSQ {}", name.replace(' ', "_"));
            ev!("DNS {} {}", name.replace(' ', "_"), libc::EAI_NONAME);
            return Err(libc::EAI_NONAME);
        }
    };
    ev!("HEAP {}", heap());
    ev!("DNSQ {}", name);
    let delay = s().plan.hosts[h].dns_delay + choose(me, K::DnsDelay, 500) as u64 * MS;
    if delay > 0 {
        block(Wait::Dns, s().now + delay);
    }
    let host = &s().plan.hosts[h];
    let mut err = host.dns_err;
    let v = choose(me, K::DnsFail, 3);
    if v > 0 {
        err = [libc::EAI_AGAIN, libc::EAI_NONAME][v as usize - 1];
    }
    if err != 0 {
        ev!("DNS {} {}", name, err);
        return Err(err);
    }
    let mut ips: Vec<IpAddr> = host.addrs.iter().filter_map(|a| a.ip.parse().ok()).collect();
    let r = choose(me, K::DnsOrder, 1000);
    if r > 0 {
        for i in (1..ips.len()).rev() {
            let j = keyed(s().plan.seed, me, 209, r * 16 + i as u32) as usize % (i + 1);
            ips.swap(i, j);
        }
    }
    let list: Vec<String> = ips.iter().map(|i| i.to_string()).collect();
    ev!("DNS {} 0 {}", name, list.join(","));
    Ok(ips)
}

/// Everything still on its way to a server when the process ends arrives.
pub fn drain() {
    let keys: Vec<(u64, u64)> = s().queue.iter().filter(|(_, e)| matches!(e, Ev::ToServer(..))).map(|(k, _)| *k).collect();
    for key in keys {
        if let Some(Ev::ToServer(k, data)) = s().queue.remove(&key) {
            to_server(k, data);
        }
    }
}

/// A digest of transferred bytes, so that equal logs mean equal traffic.
fn fnv(b: &[u8]) -> u32 {
    b.iter().fold(0x811c_9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x0100_0193))
}
