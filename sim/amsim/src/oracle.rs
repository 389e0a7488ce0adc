//! What one worker must have done, given what its servers, its name
//! resolution and its files did to it: the reference model is executed over
//! the recorded exchanges.
use crate::hist::*;
use crate::model::*;
use crate::scen::*;
use proto::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug)]
pub struct Seen {
    pub resp: Resp,
    /// false: only a prefix of the body is known to have arrived
    pub body_known: bool,
    pub sid: u64,
}
#[derive(Clone, Debug)]
pub enum Cls {
    /// the exchange must be reported as failed
    Fail(String),
    /// it must be reported as completed with this response
    Done(Seen),
    /// whichever of the two
    Either(Seen, String),
    /// the server sent something the model has no opinion about
    Unknown,
}
#[derive(Clone, Debug)]
pub enum Res {
    Fail(String),
    Done(Seen),
    Unknown,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ExpLine {
    Exact(String),
    /// starts with this text; the values are not determined
    Prefix(String),
}
#[derive(Clone, Debug)]
pub struct ExpBlock {
    pub name: String,
    pub lines: Vec<ExpLine>,
    /// None: follows from the lines
    pub pass: Option<bool>,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub wire: Wire,
    pub req: Req,
    pub att: Option<usize>,
    pub res: Res,
    pub block: ExpBlock,
    pub order: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Iter {
    pub calls: Vec<Call>,
    /// the whole test body was executed, or a script error ended it
    pub complete: bool,
    pub error: Option<String>,
    /// index and time of the first and last event
    pub first: Option<(usize, u64)>,
    pub last: Option<(usize, u64)>,
}
#[derive(Clone, Debug, Default)]
pub struct Worker {
    pub tid: usize,
    pub test: String,
    pub iters: Vec<Iter>,
    pub marks: Vec<String>,
    pub complaints: Vec<(Vec<&'static str>, &'static str, String)>,
    pub env: Env,
}
impl Worker {
    pub fn calls(&self) -> impl Iterator<Item = (usize, &Call)> {
        self.iters.iter().enumerate().flat_map(|(k, it)| it.calls.iter().map(move |c| (k, c)))
    }
}

/// Sids of exchanges reported as completed.
pub fn evidence(items: &[Item]) -> HashSet<u64> {
    let mut v = HashSet::new();
    for it in items {
        if let ItemKind::Block { lines, .. } = &it.kind {
            for l in lines {
                if let Some(r) = l.strip_prefix("headers.Sid[0] != 0 => ") {
                    if let Some(n) = r.split(' ').next().and_then(|x| x.parse().ok()) {
                        v.insert(n);
                    }
                }
            }
        }
    }
    v
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// The head of a response the simulated server built.
pub fn parse_resp(full: &[u8], headlen: usize, upto: usize) -> Option<Resp> {
    let text = std::str::from_utf8(full.get(..headlen)?).ok()?;
    let mut lines = text.split("\r\n");
    let mut first = lines.next()?.splitn(3, ' ');
    let version = first.next()?.to_string();
    let status = first.next()?.parse().ok()?;
    let reason = first.next().unwrap_or("").trim().to_string();
    let mut headers = Vec::new();
    for l in lines {
        if let Some((a, b)) = l.split_once(':') {
            headers.push((a.trim().to_string(), b.trim().to_string()));
        }
    }
    let body = std::str::from_utf8(full.get(headlen..upto)?).ok()?.to_string();
    Some(Resp { version, status, reason, headers, body })
}

/// Is the certificate of this service valid for this host while the simulated clock goes
/// from `from` to `to`? None: for a part of the time.
pub fn peer_ok(sc: &Scenario, h: &Hist, tls: &str, host: &str, from: u64, to: u64) -> Option<bool> {
    // (not before, not after), as in certs/gen.sh
    let (nb, na) = match tls.split('/').next().unwrap_or("") {
        "good" => (1_577_836_800i128, 2_366_841_600i128),
        "expired" => (1_577_836_800, 1_704_067_200),
        "notyet" => (1_893_456_000, 2_366_841_600),
        _ => return Some(false),
    };
    if !(host == "10.9.0.1" || host == "secure.test" || host == "secure2.test" || (host.ends_with(".tls.test") && host.matches('.').count() == 2)) {
        return Some(false);
    }
    let sec = SEC as i128;
    let wall = |t: u64, jumps: usize| -> i128 {
        let off: i128 = h.walljumps[..jumps].iter().map(|j| j.2 as i128).sum();
        WALL_BASE as i128 + (t - MONO_BASE) as i128 + sc.plan.wall_offset as i128 + off
    };
    let before = |t: u64| h.walljumps.iter().filter(|j| j.1 <= t).count();
    let mut times = vec![wall(from, h.walljumps.iter().filter(|j| j.1 < from).count()), wall(to, before(to))];
    for (k, j) in h.walljumps.iter().enumerate() {
        if j.1 >= from && j.1 <= to {
            times.push(wall(j.1, k));
            times.push(wall(j.1, k + 1));
        }
    }
    let inside = times.iter().all(|t| *t >= (nb + 2) * sec && *t <= (na - 2) * sec);
    let outside = times.iter().all(|t| *t <= (nb - 2) * sec || *t >= (na + 2) * sec);
    match (inside, outside) {
        (true, _) => Some(true),
        (_, true) => Some(false),
        _ => None,
    }
}

pub fn no_tls_name(host: &str) -> bool {
    host.contains('!') || host.contains("..")
}

pub struct Ctx<'a> {
    pub sc: &'a Scenario,
    pub h: &'a Hist,
    pub items: &'a [Item],
    pub sids: HashSet<u64>,
    /// attempts per thread
    pub atts: BTreeMap<usize, Vec<usize>>,
    /// marks per thread: index into items
    pub marks: BTreeMap<usize, Vec<usize>>,
    /// other lines of a worker (script errors): index into items
    pub errs: BTreeMap<usize, Vec<usize>>,
    /// files the program's requests upload
    pub uploads: BTreeSet<String>,
    pub killed: bool,
}

impl<'a> Ctx<'a> {
    pub fn new(sc: &'a Scenario, h: &'a Hist, items: &'a [Item]) -> Ctx<'a> {
        let mut atts: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (k, a) in h.attempts.iter().enumerate() {
            atts.entry(a.tid).or_default().push(k);
        }
        let mut marks: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let mut errs: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (k, it) in items.iter().enumerate() {
            if let ItemKind::Line(l) = &it.kind {
                if l.starts_with("MARK ") {
                    marks.entry(it.tid).or_default().push(k);
                } else if it.tid != 0 && !l.contains(" count=") {
                    errs.entry(it.tid).or_default().push(k);
                }
            }
        }
        let uploads: BTreeSet<String> = sc
            .prog
            .requests
            .iter()
            .filter_map(|r| match &r.body {
                Body::Multi(p) => Some(p.iter().filter_map(|(_, v)| v.strip_prefix('@').map(|s| s.replace(' ', "\\x20"))).collect::<Vec<_>>()),
                _ => None,
            })
            .flatten()
            .collect();
        Ctx { sc, h, items, sids: evidence(items), atts, marks, errs, uploads, killed: h.end == Some(End::Killed) }
    }

    pub fn used(&self, att: usize) -> Option<&'a Conn> {
        let a = &self.h.attempts[att];
        a.used.and_then(|k| self.h.conns.get(&k))
    }
    /// Is the peer of this connection to be trusted? None: it may or may not.
    pub fn trusted(&self, a: &Attempt, c: &Conn, tls: &str, host: &str) -> Option<bool> {
        let to = c.close.map(|x| x.1).unwrap_or(self.h.end_t).max(a.t);
        peer_ok(self.sc, self.h, tls, host, a.t, to)
    }

    /// What the environment decided about an exchange.
    pub fn classify(&self, att: usize, w: &Wire, req: &Req) -> Cls {
        let cls = self.classify_sure(att, w, req);
        match (cls, self.used(att)) {
            (Cls::Done(seen), Some(c)) if w.scheme == "https" => {
                let a = &self.h.attempts[att];
                let tls = self.sc.plan.hosts.iter().find(|h| h.name == w.host).map(|h| self.sc.plan.services[h.service].tls.as_str()).unwrap_or("");
                let over = c.close.map(|x| x.0).unwrap_or(usize::MAX);
                let roots = |p: &str| p.ends_with("ca.pem");
                if self.trusted(a, c, tls, &w.host).is_none() {
                    Cls::Either(seen, "the clock reached a limit of the certificate".into())
                } else if self.h.freaderr.iter().chain(&self.h.freadint).any(|(i, _, p)| *i < over && roots(p))
                    || self.h.opens.iter().any(|(i, _, p, _, r)| *i < over && *r < 0 && roots(p))
                    || self.h.staterr.iter().any(|p| roots(p))
                {
                    Cls::Either(seen, "the trusted certificates could not be read".into())
                } else {
                    Cls::Done(seen)
                }
            }
            (cls, _) => cls,
        }
    }
    fn classify_sure(&self, att: usize, w: &Wire, req: &Req) -> Cls {
        let a = &self.h.attempts[att];
        let fail = |m: &str| Cls::Fail(m.to_string());
        // a file of the request could not be read while it was being sent
        if matches!(req.body, Body::Multi(_)) {
            let over = match self.used(att) {
                Some(c) => c.close.map(|c| c.0).unwrap_or(a.end).min(a.end),
                None => a.i,
            };
            let inside = |i: usize| i > a.i && i < over;
            if self.h.freaderr.iter().chain(&self.h.freadint).any(|(i, t, _)| *t == a.tid && inside(*i)) {
                return fail("reading a file of the request failed");
            }
            if self.h.opens.iter().any(|(i, t, _, w, r)| *t == a.tid && !*w && *r < 0 && *r != -4 && inside(*i)) {
                return fail("opening a file of the request failed");
            }
        }
        match &a.dns {
            None => return fail("name resolution did not finish"),
            Some((_, _, e, _)) if *e != 0 => return fail("name resolution failed"),
            _ => {}
        }
        let c = match self.used(att) {
            Some(c) => c,
            None => return fail("no connection"),
        };
        let host = self.sc.plan.hosts.iter().find(|h| h.name == w.host);
        let service = host.map(|h| &self.sc.plan.services[h.service]);
        let tls = service.map(|s| s.tls.as_str()).unwrap_or("");
        let https = w.scheme == "https";
        if https && self.trusted(a, c, tls, &w.host) == Some(false) {
            return fail("the peer is not trusted");
        }
        if https && matches!(c.tls_fault, 1..=3) {
            return fail("the connection broke during the handshake");
        }
        let r = match c.resps.first() {
            Some(r) => r,
            None => return fail("the server never answered"),
        };
        if c.senderr && !https {
            return fail("sending failed");
        }
        if r.fault == 6 {
            if self.sc.prop != "C16" {
                // the generators of the other checks only send undecodable text
                return fail("the response is not text");
            }
            return if c.recverr && !https { fail("receiving failed") } else { Cls::Unknown };
        }
        if c.recverr && !https {
            // (a reset after the complete response is fault 8)
            if !matches!(r.fault, 5 | 8) || r.cut < r.full.len() {
                return fail("receiving failed");
            }
        }
        let seen = |upto: usize| parse_resp(&r.full, r.headlen, upto).map(|resp| Seen { resp, body_known: true, sid: r.sid });
        let bodyless = w.method == "HEAD" || r.status == 204 || r.status == 304 || (100..200).contains(&r.status);
        let declared = r.framing == 0 && !bodyless;
        if r.cut < r.headlen {
            return fail("the response ended inside its head");
        }
        if r.cut < r.full.len() && declared {
            return fail("the response is shorter than declared");
        }
        let whole = match seen(r.cut) {
            Some(s) => s,
            None => return Cls::Unknown,
        };
        // closed without saying so inside TLS, or damaged, or reset at the end
        let loose = Seen { body_known: false, ..whole.clone() };
        let truncated = if declared || bodyless { whole.clone() } else { loose.clone() };
        if https && c.senderr {
            return Cls::Either(truncated, "sending failed after the response".into());
        }
        if https && c.recverr {
            return Cls::Either(truncated, "receiving failed".into());
        }
        if c.damaged && https {
            return fail("the encrypted stream was damaged");
        }
        if c.tls_fault == 5 && https {
            return Cls::Either(truncated, "the encrypted stream was damaged".into());
        }
        match r.fault {
            2 => fail("connection reset"),
            5 => {
                if r.cut == r.full.len() {
                    Cls::Either(whole, "reset after the response".into())
                } else if https || bodyless {
                    Cls::Either(truncated, "reset inside the response".into())
                } else {
                    fail("connection reset inside the response")
                }
            }
            8 => Cls::Either(whole, "reset after the response".into()),
            11 if https => Cls::Either(whole, "no close_notify".into()),
            4 if https => Cls::Either(whole, "no close_notify".into()),
            _ => Cls::Done(whole),
        }
    }

    pub fn resolve(&self, c: Cls) -> Res {
        match c {
            Cls::Fail(m) => Res::Fail(m),
            Cls::Done(s) => Res::Done(s),
            Cls::Unknown => Res::Unknown,
            Cls::Either(s, why) => {
                if self.sids.contains(&s.sid) {
                    Res::Done(s)
                } else {
                    Res::Fail(why)
                }
            }
        }
    }

    pub fn top(&self) -> Worker {
        let mut w = Worker { tid: 0, ..Default::default() };
        let mut run = Run::new(self, 0);
        let mut it = Iter::default();
        let _ = run.ops(&self.sc.prog.top, &mut w, &mut it);
        w.iters.push(it);
        w
    }

    pub fn worker(&self, tid: usize, test: &Test, env: &Env) -> Worker {
        let mut w = Worker { tid, test: test.name.clone(), env: env.clone(), ..Default::default() };
        let mut run = Run::new(self, tid);
        while run.more() {
            let mut it = Iter::default();
            let before = (run.at, run.mark, run.open, run.err);
            let end = run.ops(&test.ops, &mut w, &mut it);
            match end {
                Ok(()) => it.complete = true,
                Err(Stop::Error(e)) => {
                    it.complete = true;
                    it.error = Some(e);
                    if let Some(k) = run.errs.get(run.err) {
                        let item = &self.items[*k];
                        run.touch(&mut it, item.i, item.t);
                        run.err += 1;
                    }
                }
                Err(Stop::Starved(name)) => {
                    if !self.killed {
                        w.complaints.push((
                            vec!["C01", "C02", "C12", "C13", "C16", "C17", "C20", "C11", "C06", "C05", "C21"],
                            "iteration cut short",
                            format!("thread {tid} never made call {} of iteration {} ({name})", it.calls.len(), w.iters.len()),
                        ));
                    }
                }
            }
            let stop = !it.complete || it.error.is_some();
            w.iters.push(it);
            if stop || before == (run.at, run.mark, run.open, run.err) || self.sc.mode == Mode::All {
                break;
            }
        }
        if run.at < run.atts.len() {
            w.complaints.push((
                vec!["C01", "C02", "C05", "C06", "C12", "C13", "C20", "C07", "C16", "C17", "C21"],
                "exchange nobody asked for",
                format!("thread {tid} made {} more exchanges than its calls ask for; first at log line {}", run.atts.len() - run.at, self.h.attempts[run.atts[run.at]].i + 1),
            ));
        }
        w
    }
}

enum Stop {
    Error(String),
    Starved(String),
}

struct Run<'a, 'b> {
    x: &'b Ctx<'a>,
    tid: usize,
    atts: Vec<usize>,
    at: usize,
    marks: Vec<usize>,
    mark: usize,
    opens: Vec<(usize, String, i64)>,
    open: usize,
    errs: Vec<usize>,
    err: usize,
}
impl<'a, 'b> Run<'a, 'b> {
    fn new(x: &'b Ctx<'a>, tid: usize) -> Self {
        Run {
            x,
            tid,
            atts: x.atts.get(&tid).cloned().unwrap_or_default(),
            at: 0,
            marks: x.marks.get(&tid).cloned().unwrap_or_default(),
            mark: 0,
            opens: x
                .h
                .opens
                .iter()
                .filter(|(_, t, p, w, r)| *t == tid && !*w && *r != -4 && x.uploads.contains(p))
                .map(|(i, _, p, _, r)| (*i, p.clone(), *r))
                .collect(),
            open: 0,
            errs: x.errs.get(&tid).cloned().unwrap_or_default(),
            err: 0,
        }
    }
    fn more(&self) -> bool {
        self.at < self.atts.len() || self.mark < self.marks.len() || self.err < self.errs.len() || self.opens[self.open..].iter().any(|o| o.2 < 0)
    }
    fn touch(&self, it: &mut Iter, i: usize, t: u64) {
        it.first.get_or_insert((i, t));
        it.last = Some((i, t));
    }
    fn ops(&mut self, ops: &[Op], w: &mut Worker, it: &mut Iter) -> Result<(), Stop> {
        for op in ops {
            match op {
                Op::Let(n, e) => {
                    let v = eval(e, &w.env).map_err(Stop::Error)?;
                    w.env.insert(n.clone(), v);
                }
                Op::If(c, a, b) => {
                    let v = eval(c, &w.env).map_err(Stop::Error)?;
                    let branch = if matches!(v, Val::Bool(false) | Val::Null) { b } else { a };
                    self.ops(branch, w, it)?;
                }
                Op::Print(f, args) => {
                    let args = args.iter().map(|e| eval(e, &w.env)).collect::<Result<Vec<_>, _>>().map_err(Stop::Error)?;
                    w.marks.push(format_args(f, &args));
                    if let Some(k) = self.marks.get(self.mark) {
                        let item = &self.x.items[*k];
                        self.touch(it, item.i, item.t);
                        self.mark += 1;
                    }
                }
                Op::Fail(text) => {
                    let name: String =
                        text[text.find("missing").unwrap_or(0)..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                    return Err(Stop::Error(name));
                }
                Op::Call(name, var) => {
                    let v = self.call(name, w, it)?;
                    if let Some(n) = var {
                        w.env.insert(n.clone(), v);
                    }
                }
            }
        }
        Ok(())
    }
    fn call(&mut self, name: &str, w: &mut Worker, it: &mut Iter) -> Result<Val, Stop> {
        let req = match self.x.sc.prog.req(name) {
            Some(r) => r.clone(),
            None => return Err(Stop::Error(name.to_string())),
        };
        let wire = wire(&req, &w.env);
        let mut res = None;
        let mut att = None;
        let next = self.atts.get(self.at).copied();
        let files: Vec<String> = match &wire.parts {
            Some(p) => p.iter().filter_map(|(_, v)| v.strip_prefix('@').map(|s| s.replace(' ', "\\x20"))).collect(),
            None => vec![],
        };
        // opening a file fails before anything is sent
        for f in &files {
            let before = |i: usize| next.map(|a| i < self.x.h.attempts[a].i).unwrap_or(true);
            match self.opens.get(self.open) {
                Some((i, p, r)) if p == f && before(*i) => {
                    let (i, r) = (*i, *r);
                    self.open += 1;
                    if r < 0 {
                        let t = self.x.h.per.get(&self.tid).and_then(|v| v.iter().find(|o| o.i == i)).map(|o| o.t).unwrap_or(0);
                        self.touch(it, i, t);
                        res = Some(Res::Fail("a file of the request could not be opened".into()));
                        break;
                    }
                }
                _ => break,
            }
        }
        // a host that can have no certificate may fail before it is resolved
        if wire.scheme == "https" && no_tls_name(&wire.host) && next.map(|a| self.x.h.attempts[a].host != wire.host).unwrap_or(true) {
            res = Some(Res::Fail("the host is no name a certificate can have".into()));
        }
        if res.is_none() {
            let a = match next {
                Some(a) => a,
                None => return Err(Stop::Starved(name.to_string())),
            };
            self.at += 1;
            att = Some(a);
            let at = &self.x.h.attempts[a];
            // files opened only while sending
            while self.open < self.opens.len() && self.opens[self.open].0 > at.i && self.opens[self.open].0 < at.end && files.contains(&self.opens[self.open].1) {
                // those of the next call are opened after this exchange is over
                let over = self.x.used(a).and_then(|c| c.close).map(|c| c.0).unwrap_or(usize::MAX);
                if self.opens[self.open].0 > over || self.x.used(a).is_none() {
                    break;
                }
                self.open += 1;
            }
            if at.host != wire.host {
                w.complaints.push((
                    vec!["C05", "C06", "C02", "C20", "C16"],
                    "wrong host",
                    format!("thread {} called {} but resolved {} instead of {}", self.tid, name, at.host, wire.host),
                ));
            }
            self.touch(it, at.i, at.t);
            let own = self.x.h.per.get(&self.tid);
            if let Some(last) = own.and_then(|v| v[..v.partition_point(|o| o.i < at.end)].iter().rev().find(|o| matches!(o.k, Ek::Close | Ek::Dns | Ek::Recv | Ek::Send))) {
                self.touch(it, last.i, last.t);
            }
            res = Some(self.x.resolve(self.x.classify(a, &wire, &req)));
        }
        let res = res.unwrap();
        let (resp, known, sure) = match &res {
            Res::Done(s) => (s.resp.clone(), s.body_known, true),
            Res::Fail(_) => (Resp::default(), true, true),
            Res::Unknown => (Resp::default(), true, false),
        };
        let map = resp.to_val();
        let env: Env = match &map {
            Val::Map(m) => m.clone(),
            _ => Env::new(),
        };
        // the json view is only determined for JSON documents
        let json_known = known && (resp.body.trim().is_empty() || env.contains_key("json"));
        let mut pass = Some(!matches!(res, Res::Fail(_)));
        let mut lines = Vec::new();
        for (l, op, r) in &req.asserts {
            let left = eval(l, &env).unwrap_or(Val::Null);
            let right = eval(r, &env).unwrap_or(Val::Null);
            let open = !sure || (!known && (mentions(l, "body") || mentions(r, "body"))) || (!json_known && (mentions(l, "json") || mentions(r, "json"))) || odd(l) || odd(r);
            if open {
                lines.push(ExpLine::Prefix(format!("{} {} {} => ", l, op, r)));
                if pass == Some(true) {
                    pass = None;
                }
                continue;
            }
            let ok = compare(op, &left, &right);
            if !ok && pass != Some(false) {
                pass = Some(false);
            }
            lines.push(ExpLine::Exact(format!("{} {} {} => {} {} {} => {}", l, op, r, left, op, right, ok)));
        }
        if !sure {
            pass = None;
        }
        let order = it.calls.len();
        it.calls.push(Call { block: ExpBlock { name: name.to_string(), lines, pass }, wire, req, att, res, order });
        Ok(map)
    }
}

fn mentions(e: &E, name: &str) -> bool {
    match e {
        E::V(v) => v == name,
        E::F(e, _) | E::Paren(e) | E::Len(e) | E::Neg(e) | E::Not(e) => mentions(e, name),
        E::Ix(a, b) | E::Bin(_, a, b) | E::Cmp(_, a, b) | E::Log(_, a, b) => mentions(a, name) || mentions(b, name),
        _ => false,
    }
}
/// Values whose printed form or arithmetic the model does not fix.
fn odd(e: &E) -> bool {
    match e {
        E::Neg(e) => !matches!(**e, E::D(_)),
        E::Bin(op, a, b) => op == "<<" || op == ">>" || odd(a) || odd(b),
        E::Ix(a, b) => odd(a) || odd(b) || matches!(**b, E::I(i) if !(0..=1000).contains(&i)),
        E::F(e, _) | E::Paren(e) | E::Len(e) | E::Not(e) => odd(e),
        E::Cmp(_, a, b) | E::Log(_, a, b) => odd(a) || odd(b),
        _ => false,
    }
}
