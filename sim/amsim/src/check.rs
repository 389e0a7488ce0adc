//! Decides, from the recorded history of one execution, whether the
//! properties held in it.
use crate::avro::{self, Av};
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::run::Outcome;
use crate::scen::*;
use proto::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug)]
pub struct V {
    pub props: Vec<&'static str>,
    pub rule: &'static str,
    pub msg: String,
}

/// What an execution contained, for the evidence.
#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub exchanges: u64,
    pub done: u64,
    pub failed: u64,
    pub open: u64,
    pub iterations: u64,
    pub workers: u64,
    pub blocks: u64,
    pub records: u64,
    pub lines: u64,
    pub growth: i64,
    pub max_gap: u64,
    pub gap_at: String,
    pub end_slack: u64,
    pub killed: bool,
    pub sigint: bool,
    pub races: u64,
    pub tls_done: u64,
    pub torn: u64,
}

const ALL: &[&str] = crate::gens::ALL;
/// time the threads of one process may take from each other
/// virtual time the program itself may spend between two events of its own (it spends microseconds)
const TIMETOL: i128 = 100;
pub const SLACK: u64 = 20 * MS;
/// what the memory in use may vary by
const GROWTH: i64 = 256 << 10;

struct Chk<'a> {
    sc: &'a Scenario,
    out: &'a Outcome,
    h: &'a Hist,
    items: &'a [Item],
    vs: Vec<V>,
    f: Facts,
}

fn own_list<'a>(h: &'a Hist, tid: usize) -> &'a [Own] {
    h.per.get(&tid).map(|v| &v[..]).unwrap_or(&[])
}
fn next_own(h: &Hist, tid: usize, i: usize) -> Option<Own> {
    let v = own_list(h, tid);
    v.get(v.partition_point(|o| o.i <= i)).copied()
}
fn prev_own(h: &Hist, tid: usize, i: usize, skip: &[Ek]) -> Option<Own> {
    let v = own_list(h, tid);
    v[..v.partition_point(|o| o.i < i)].iter().rev().find(|o| !skip.contains(&o.k)).copied()
}

pub fn check(sc: &Scenario, out: &Outcome) -> (Vec<V>, Facts) {
    let h = &out.hist;
    let (items, bad) = h.items();
    let mut c = Chk { sc, out, h, items: &items, vs: vec![], f: Facts::default() };
    c.f.killed = h.end == Some(End::Killed);
    c.f.sigint = h.sigints.iter().any(|s| s.2);
    if c.ending() {
        for b in bad {
            c.say(&["C02", "C18"], "torn output", b);
        }
        match sc.mode {
            Mode::Repl => c.repl(),
            _ if sc.prop == "C19" => c.sources(),
            _ => c.test(),
        }
    }
    (c.vs, c.f)
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}
fn text(b: &[u8]) -> String {
    short(&format!("{:?}", String::from_utf8_lossy(b)))
}

impl<'a> Chk<'a> {
    fn say(&mut self, props: &[&'static str], rule: &'static str, msg: impl Into<String>) {
        self.vs.push(V { props: props.to_vec(), rule, msg: msg.into() });
    }

    // ------------------------------------------------------------ ending

    /// false: the run ended in a way that leaves nothing to compare
    fn ending(&mut self) -> bool {
        let h = self.h;
        let err = String::from_utf8_lossy(&h.err).to_string();
        let source_error = self.sc.prop == "C19" && (self.sc.frags.iter().any(|f| f.1.contains('\u{ffff}')) || h.direrr || !h.freaderr.is_empty() || !h.staterr.is_empty() || h.opens.iter().any(|o| o.4 < 0 && o.4 != -4));
        // a recording that cannot be created
        if let Some(o) = h.opens.iter().find(|o| o.3 && o.4 < 0 && o.4 != -4 && o.2.contains("rec/")) {
            if h.end == Some(End::Exit(0)) && !err.contains("panicked at") {
                return false;
            }
            if !matches!(h.end, Some(End::Exit(_))) {
                self.say(&["C11"], "recording not created", format!("{} could not be created; the run ended with {:?}", o.2, h.end));
            } else if h.per.iter().any(|(t, v)| *t != 0 && v.iter().any(|o| matches!(o.k, Ek::Dnsq | Ek::Connect | Ek::Out))) {
                self.say(&["C11"], "recording not created", format!("{} could not be created, and the run was given up with requests already being made; stderr: {}", o.2, short(&err)));
            }
            return false;
        }
        if let Some(i) = err.find("panicked at") {
            if !source_error {
                self.say(ALL, "panic", format!("a thread panicked: {}", short(&err[i..])));
                return false;
            }
        }
        match h.end.clone() {
            Some(End::Exit(0)) => true,
            Some(End::Exit(_)) if source_error => true,
            Some(End::Exit(c)) => {
                self.say(ALL, "exit status", format!("exit status {c}; stderr: {}", short(&err)));
                false
            }
            Some(End::Killed) if self.sc.plan.kill_step > 0 || self.sc.plan.rates.iter().any(|r| r.kind == K::KillWrite as u8) || self.sc.plan.decisions.iter().any(|d| d.kind == K::KillWrite as u8) => true,
            Some(End::Sigint) => {
                // without a handler the process dies; it must have one
                // before any worker does anything
                let busy = h.per.iter().any(|(t, v)| *t != 0 && v.iter().any(|o| matches!(o.k, Ek::Dnsq | Ek::Connect | Ek::Out)));
                if busy || (self.sc.prop != "C13" && self.sc.prop != "C14") {
                    self.say(&["C13", "C14"], "killed by the interrupt", "the interrupt killed the process while workers were running");
                }
                false
            }
            Some(End::Deadlock) => {
                self.say(ALL, "deadlock", format!("no thread can ever run again: {}", h.threads_at_end.join("; ")));
                false
            }
            Some(End::Livelock(w)) => {
                self.say(ALL, "does not end", format!("the run does not end ({w}); threads: {}", h.threads_at_end.join("; ")));
                false
            }
            Some(End::Signal(s)) => {
                self.say(ALL, "crash", format!("the process died from signal {s}; stderr: {}", short(&err)));
                false
            }
            Some(End::Hang) => {
                self.say(ALL, "hang", format!("{} s of processor time without an end", self.sc.cpu_limit));
                false
            }
            other => {
                self.say(ALL, "no end", format!("the run ended with {:?}", other));
                false
            }
        }
    }

    // ------------------------------------------------------ repl, sources

    fn repl(&mut self) {
        let text = String::from_utf8_lossy(&self.h.out).to_string();
        let lines: Vec<&str> = text.lines().collect();
        let mut want: Vec<&Say> = Vec::new();
        let mut pings = 0;
        let mut read = 0;
        for l in &self.sc.lines {
            read += 1;
            if l.say == Say::Exit {
                break;
            }
            if !l.text.starts_with("request") {
                pings += l.text.matches("ping()").count() + l.text.matches("dead()").count();
            }
            want.push(&l.say);
        }
        self.f.lines = read;
        // which prefix of the output can the first k lines of input explain
        let n = lines.len();
        let mut ok = vec![false; n + 1];
        ok[0] = true;
        let mut reached = 0;
        for (k, s) in want.iter().enumerate() {
            let mut next = vec![false; n + 1];
            match s {
                Say::Nothing | Say::Exit => next = ok.clone(),
                Say::Exact(v) => {
                    for i in 0..=n {
                        if ok[i] && i + v.len() <= n && v.iter().zip(&lines[i..]).all(|(a, b)| a == b) {
                            next[i + v.len()] = true;
                        }
                    }
                }
                Say::Some => {
                    let mut seen = false;
                    for i in 0..=n {
                        next[i] = seen;
                        seen |= ok[i];
                    }
                }
            }
            if next.iter().any(|x| *x) {
                reached = k + 1;
            } else {
                break;
            }
            ok = next;
        }
        if reached < want.len() {
            let l = self.sc.lines.iter().filter(|l| l.say != Say::Exit).nth(reached).unwrap();
            let best = ok.iter().rposition(|x| *x).unwrap_or(0);
            self.say(
                &["C18"],
                "session output",
                format!("input line {} ({:?}) should print {:?}; output so far ends before {:?}", reached + 1, l.text, l.say, lines.get(best)),
            );
        } else if !ok[n] {
            let best = ok.iter().rposition(|x| *x).unwrap_or(0);
            self.say(&["C18"], "session output", format!("output no input line accounts for: {:?}", lines.get(best)));
        }
        let made = self.h.attempts.len();
        if made != pings {
            self.say(&["C18"], "evaluations", format!("{pings} input lines call the request, {made} exchanges were made"));
        }
    }

    fn sources(&mut self) {
        let is_src = |p: &str| std::path::Path::new(p).extension() == Some(std::ffi::OsStr::new("fan"));
        // what is below the given path
        let norm = |p: &str| p.split('/').filter(|x| !x.is_empty() && *x != ".").fold(Vec::new(), |mut v: Vec<&str>, x| {
            if x == ".." {
                v.pop();
            } else {
                v.push(x);
            }
            v
        }).join("/");
        let base = norm(if self.sc.path.is_empty() { "src" } else { &self.sc.path });
        let below = |p: &str| base.is_empty() || p == base || p.starts_with(&format!("{base}/"));
        let mut files: Vec<(std::path::PathBuf, &str)> = self.sc.frags.iter().map(|f| (format!("src/{}", f.0), &f.1[..])).filter(|f| is_src(&f.0) && below(&f.0)).map(|f| (f.0.into(), f.1)).collect();
        for (l, to) in &self.sc.links {
            let (name, text) = self.sc.extra.last().unwrap();
            match name.strip_prefix("linked/") {
                // a link to the directory
                Some(rest) if to.ends_with("linked") => files.push((format!("{l}/{rest}").into(), text)),
                _ => files.push((l.into(), text)),
            }
        }
        files.sort();
        let whole: String = files.iter().map(|f| f.1).collect();
        let want = match source(&whole) {
            Some(w) => w,
            None if whole.contains('\u{ffff}') => vec![],
            None => return,
        };
        let got: Vec<String> = self
            .items
            .iter()
            .filter_map(|it| match &it.kind {
                ItemKind::Line(l) => Some(l.clone()),
                _ => None,
            })
            .collect();
        self.f.lines = files.len() as u64;
        // which errors make the source incomplete
        let mut hard = Vec::new();
        let mut soft = false;
        let dir = |p: &str| {
            let q = p.trim_end_matches('/');
            self.sc.links.iter().any(|(l, _)| format!("{}/", rel(q)).starts_with(&format!("{l}/"))) || q.is_empty() || q == "." || q == "src" || q.ends_with("/src") || self.sc.frags.iter().any(|f| q.ends_with(f.0.rsplit_once('/').map(|x| x.0).unwrap_or("\u{0}")) || format!("src/{}", f.0).starts_with(&format!("{}/", rel(q))))
        };
        if whole.contains('\u{ffff}') {
            hard.push("a source is no text".to_string());
        }
        if self.h.direrr {
            hard.push("a directory could not be listed".to_string());
        }
        for (_, _, p) in &self.h.freaderr {
            if is_src(p) {
                hard.push(format!("{p} could not be read"));
            } else {
                soft = true;
            }
        }
        for (_, _, p, w, r) in &self.h.opens {
            if !*w && *r < 0 && *r != -4 {
                if is_src(p) || dir(p) {
                    hard.push(format!("{p} could not be opened"));
                } else {
                    soft = true;
                }
            }
        }
        for p in &self.h.staterr {
            if is_src(p) || dir(p) {
                hard.push(format!("{p} could not be examined"));
            } else {
                soft = true;
            }
        }
        if !hard.is_empty() {
            // the message about it is no execution
            let ran: Vec<&String> = got.iter().filter(|l| l.starts_with("MARK ")).collect();
            if let Some(l) = ran.first() {
                self.say(&["C19"], "incomplete source executed", format!("{}, yet {:?} was printed", hard[0], l));
            }
            return;
        }
        if soft && got.iter().all(|l| !l.starts_with("MARK ")) {
            return;
        }
        if self.h.end != Some(End::Exit(0)) {
            self.say(&["C19"], "exit status", format!("ended with {:?}", self.h.end));
        }
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let order: Vec<String> = files.iter().map(|(p, _)| p.display().to_string()).collect();
            self.say(&["C19"], "source order", format!("printed line {}: {:?} instead of {:?}; files in order: {}", k + 1, got.get(k), want.get(k), order.join(", ")));
        }
    }

    // ------------------------------------------------------------- tests

    fn test(&mut self) {
        let (sc, h, items) = (self.sc, self.h, self.items);
        let killed = self.f.killed;
        let x = Ctx::new(sc, h, items);
        let top = x.top();
        for (p, r, m) in top.complaints.clone() {
            self.say(&p, r, m);
        }
        // the workers and what they run
        let mut tids: BTreeSet<usize> = x.atts.keys().copied().collect();
        tids.extend(x.marks.keys().copied());
        tids.extend(x.errs.keys().copied());
        tids.extend(h.opens.iter().filter(|o| !o.3 && o.4 < 0 && x.uploads.contains(&o.2)).map(|o| o.1));
        tids.remove(&0);
        let mut workers: Vec<Worker> = Vec::new();
        for tid in tids {
            let test = match sc.mode {
                Mode::Named => sc.prog.test(&sc.test),
                _ => {
                    let first = x.marks.get(&tid).and_then(|m| m.first()).map(|k| &items[*k].kind);
                    match first {
                        Some(ItemKind::Line(l)) => l.strip_prefix("MARK start ").and_then(|r| r.split(' ').next()).and_then(|n| sc.prog.test(n)),
                        _ => None,
                    }
                }
            };
            match test {
                Some(t) => {
                    let w = x.worker(tid, t, &top.env);
                    workers.push(w);
                }
                None if killed => {}
                None => {
                    let ctx: Vec<String> = x.marks.get(&tid).into_iter().flatten().map(|k| format!("{:?}", items[*k].kind)).take(2).collect();
                    self.say(&["C20", "C02", "C06"], "unknown worker", format!("thread {tid} did something no test explains {}", ctx.join(" ")))
                }
            }
        }
        for w in &workers {
            for (p, r, m) in &w.complaints {
                self.say(p, r, m.clone());
            }
        }
        self.f.workers = workers.len() as u64;
        self.f.iterations = workers.iter().map(|w| w.iters.len() as u64).sum();
        for (_, c) in workers.iter().flat_map(|w| w.calls()) {
            self.f.exchanges += 1;
            match &c.res {
                Res::Done(_) => {
                    self.f.done += 1;
                    if c.wire.scheme == "https" {
                        self.f.tls_done += 1;
                    }
                }
                Res::Fail(_) => self.f.failed += 1,
                Res::Unknown => self.f.open += 1,
            }
        }
        self.wires(&x, &top);
        for w in &workers {
            self.wires(&x, w);
        }
        self.output(&x, &workers);
        if sc.mode == Mode::All && !killed {
            for t in &sc.prog.tests {
                let n = workers.iter().filter(|w| w.test == t.name).count();
                if n != 1 {
                    self.say(&["C20"], "every test once", format!("test {} was run {n} times", t.name));
                }
            }
        }
        if sc.record {
            self.records(&x, &workers);
        }
        if !killed {
            self.counts(&workers);
            self.ends(&workers);
            self.statistics();
            self.bounded(&x, &workers);
        }
        if sc.flavour == "connect" {
            for a in 0..h.attempts.len() {
                self.race(&x, a);
            }
        }
        if sc.prop == "C17" && !killed {
            self.gaps(&workers);
        }
        if matches!(sc.prop.as_str(), "C17" | "C20") && !killed {
            self.together(&workers);
        }
        if sc.prop == "C15" {
            self.peers();
        }
        self.live(&workers);
        if sc.prop == "C25" && !killed {
            self.held(&workers);
        }
        for a in &h.attempts {
            if a.conns.len() > 1 {
                self.f.races += 1;
            }
        }
    }

    /// The bytes of every exchange, as the server got them.
    fn wires(&mut self, x: &Ctx, w: &Worker) {
        for (k, c) in w.calls() {
            let a = match c.att {
                Some(a) => a,
                None => continue,
            };
            let at = &self.h.attempts[a];
            let used = at.used;
            let whole = matches!(c.res, Res::Done(_)) && !x.killed;
            let who = format!("thread {}, iteration {k}, call {} of {}", w.tid, c.order, c.wire.name);
            let mut labels: Vec<&'static str> = vec!["C05", "C06"];
            if c.wire.scheme == "https" {
                labels.push("C15");
            }
            if self.sc.mode == Mode::All {
                labels.push("C20");
            }
            if c.wire.parts.is_some() {
                labels.push("C21");
            }
            for s in &at.conns {
                let conn = &self.h.conns[s];
                if conn.port != c.wire.port {
                    self.say(&["C05", "C07"], "port", format!("{who}: connected to port {} instead of {}", conn.port, c.wire.port));
                }
                if Some(*s) != used && (!conn.rx.is_empty() || !conn.raw.is_empty()) {
                    self.say(&["C05", "C07", "C15"], "data on a second connection", format!("{who}: connections {:?} and {s} both carried data", used));
                }
            }
            let conn = match used {
                Some(u) => &self.h.conns[&u],
                None => continue,
            };
            if let Err(m) = wire_ok(&c.wire, &conn.rx, whole, &self.sc.extra) {
                self.say(&labels, "bytes on the wire", format!("{who}, connection {}: {m}", conn.scope));
            }
        }
    }

    fn output(&mut self, x: &Ctx, workers: &[Worker]) {
        let items = self.items;
        let killed = x.killed;
        let tids: HashSet<usize> = workers.iter().map(|w| w.tid).collect();
        // lines printed by scripts
        for w in workers {
            let got: Vec<String> = x
                .marks
                .get(&w.tid)
                .into_iter()
                .flatten()
                .map(|k| match &items[*k].kind {
                    ItemKind::Line(l) => l.clone(),
                    _ => String::new(),
                })
                .collect();
            let same = got.iter().zip(&w.marks).take_while(|(a, b)| a == b).count();
            if same < got.len() || (same < w.marks.len() && !killed) {
                self.say(
                    &["C04", "C06", "C20"],
                    "values seen by the script",
                    format!("thread {} printed {:?} where its own history gives {:?}", w.tid, got.get(same), w.marks.get(same)),
                );
            }
            // script errors
            let want: Vec<&String> = w.iters.iter().filter_map(|i| i.error.as_ref()).collect();
            let got: Vec<&String> = x.errs.get(&w.tid).into_iter().flatten().map(|k| line(&items[*k])).collect();
            if got.len() > want.len() || (got.len() < want.len() && !killed) || got.iter().zip(&want).any(|(a, b)| !a.contains(b.as_str())) {
                let mut p = vec!["C02", "C06", "C16", "C20"];
                if !want.is_empty() {
                    p.push("C17");
                }
                self.say(&p, "unexpected output", format!("thread {} printed {:?}; its script errors are {:?}", w.tid, got, want));
            }
        }
        // everything else
        let mut stat_lines = false;
        for it in items {
            if let ItemKind::Line(l) = &it.kind {
                if stat_line(l).is_some() {
                    stat_lines = true;
                    continue;
                }
                if !tids.contains(&it.tid) && it.tid != 0 {
                    self.say(&["C02"], "unexpected output", format!("thread {} printed {:?}", it.tid, short(l)));
                }
            }
        }
        if stat_lines && !self.sc.stat {
            self.say(&["C14", "C11", "C12", "C13"], "statistics nobody asked for", "statistics were printed without --stat");
        }
        // lines of the top-level script
        let got: Vec<&String> = items.iter().filter(|it| it.tid == 0).filter_map(|it| if let ItemKind::Line(l) = &it.kind { Some(l) } else { None }).filter(|l| stat_line(l).is_none()).collect();
        if !got.is_empty() {
            self.say(&["C02", "C06"], "unexpected output", format!("the main thread printed {:?}", got[0]));
        }
        // reports
        let blocks: Vec<&Item> = items.iter().filter(|i| matches!(i.kind, ItemKind::Block { .. })).collect();
        self.f.blocks = blocks.len() as u64;
        let by_worker = blocks.iter().all(|b| tids.contains(&b.tid));
        if by_worker {
            for w in workers {
                let got: Vec<&Item> = blocks.iter().filter(|b| b.tid == w.tid).copied().collect();
                let want: Vec<(usize, &Call)> = w.calls().collect();
                // a report is made when its iteration is over
                if !killed && got.len() != want.len() {
                    let names = |v: Vec<&str>| v.join(" ");
                    self.say(
                        &["C02", "C11", "C12", "C13", "C16", "C20", "C21", "C08", "C17"],
                        "reports",
                        format!(
                            "thread {} made {} calls ({}) but {} were reported ({})",
                            w.tid,
                            want.len(),
                            short(&names(want.iter().map(|c| c.1.wire.name.as_str()).collect())),
                            got.len(),
                            short(&names(got.iter().map(|b| block(b).0.as_str()).collect()))
                        ),
                    );
                    continue;
                }
                if killed && got.len() > want.len() {
                    self.say(&["C02"], "reports", format!("thread {}: {} reports for {} calls", w.tid, got.len(), want.len()));
                    continue;
                }
                for (b, (k, c)) in got.iter().zip(&want) {
                    if !self.same_block(w, *k, c, b) {
                        break;
                    }
                }
                // in call order, and not before the call
                for (b, (_, c)) in got.iter().zip(&want) {
                    if let Some(a) = c.att {
                        if b.i < self.h.attempts[a].i {
                            self.say(&["C02"], "report before the call", format!("thread {}: {} was reported before it was made", w.tid, c.wire.name));
                        }
                    }
                }
            }
        } else {
            // somebody else prints: every report must still be there once,
            // those of a worker in order
            let mut used = vec![false; blocks.len()];
            for w in workers {
                let mut last = 0;
                for (k, c) in w.calls() {
                    let fits = |b: &Item| block_diff(c, b).is_none();
                    match (0..blocks.len()).find(|i| !used[*i] && fits(blocks[*i])) {
                        Some(i) => {
                            used[i] = true;
                            if let Res::Done(_) = c.res {
                                if i < last {
                                    self.say(&["C02"], "order of reports", format!("thread {}: the report of iteration {k}, {} is out of order", w.tid, c.wire.name));
                                }
                                last = i;
                            }
                        }
                        None if killed => {}
                        None => self.say(
                            &["C02", "C03", "C04", "C11", "C12", "C13", "C16", "C20", "C21"],
                            "reports",
                            format!("thread {}: no report of iteration {k}, {} ({:?})", w.tid, c.wire.name, c.block),
                        ),
                    }
                }
            }
            if let Some(i) = used.iter().position(|u| !u) {
                self.say(&["C02", "C03", "C20"], "reports", format!("a report no call accounts for: {:?}", blocks[i].kind));
            }
        }
    }

    fn same_block(&mut self, w: &Worker, k: usize, c: &Call, b: &Item) -> bool {
        if let Some((rule, msg)) = block_diff(c, b) {
            let props: &[&'static str] = match rule {
                "reports" => &["C02", "C11", "C12", "C13", "C16", "C20", "C21"],
                "verdict" => &["C03", "C04", "C07", "C08", "C11", "C15", "C16", "C20", "C21"],
                "assertion values" => &["C03", "C04", "C06", "C16"],
                _ => &["C02", "C03"],
            };
            let why = match &c.res {
                Res::Fail(m) => format!("failed: {m}"),
                Res::Done(_) => "completed".to_string(),
                Res::Unknown => "peer sent odd bytes".to_string(),
            };
            let cn = c.att.and_then(|a| self.h.attempts[a].used);
            self.say(props, rule, format!("thread {}, iteration {k}, call {} of {} (connection {:?}, {why}): {msg}", w.tid, c.order, c.wire.name, cn));
            return false;
        }
        true
    }

    // ------------------------------------------------- counting and ending

    fn counts(&mut self, workers: &[Worker]) {
        let sc = self.sc;
        if sc.mode != Mode::Named {
            return;
        }
        let t = sc.threads as usize;
        if workers.len() > t {
            self.say(&["C01", "C12"], "workers", format!("{} workers instead of at most {t}", workers.len()));
            return;
        }
        let first = self.h.spawned.values().min().copied().unwrap_or(0);
        // a thread that watches the clock or the signal may have begun late
        let begun = self.late_start(workers);
        let end = first.max(begun) + sc.duration * SEC;
        // the interrupt that counts
        let stop = self.h.sigints.iter().filter(|s| s.2).map(|s| s.1.max(begun)).min();
        for w in workers {
            for (k, it) in w.iters.iter().enumerate() {
                let start = match it.first {
                    Some((_, t)) => t,
                    None => continue,
                };
                if let Some(s) = stop {
                    if start > s + 10 * MS {
                        self.say(&["C13"], "iteration after the interrupt", format!("thread {} began iteration {k} {} ms after the interrupt", w.tid, (start - s) / MS));
                    }
                }
                if sc.duration > 0 && start > end + 10 * MS {
                    self.say(
                        &["C12"],
                        "iteration after the duration",
                        format!("thread {} began iteration {k} {} ms after the start of a run of {} s", w.tid, (start - first) / MS, sc.duration),
                    );
                }
            }
        }
        if stop.is_some() {
            return;
        }
        let errors = workers.iter().filter(|w| w.iters.iter().any(|i| i.error.is_some())).count();
        if sc.duration > 0 {
            let absent = self.h.delayed.iter().filter(|d| workers.iter().all(|w| w.tid != **d)).count();
            if workers.len() + absent < t {
                self.say(&["C12"], "workers", format!("{} workers instead of {t}", workers.len()));
            }
            for w in workers {
                if w.iters.iter().any(|i| i.error.is_some()) {
                    continue;
                }
                let last = self.h.tends.get(&w.tid).map(|e| e.1).unwrap_or(u64::MAX);
                if last + 2 * MS < first + sc.duration * SEC {
                    self.say(
                        &["C12"],
                        "stopped early",
                        format!("thread {} began no further iteration after {} ms of a run of {} s", w.tid, (last - first.min(last)) / MS, sc.duration),
                    );
                }
            }
            return;
        }
        let n = sc.number as usize;
        let (lo, rem) = (n / t, n % t);
        let hi = if rem > 0 { lo + 1 } else { lo };
        let mut total = 0;
        for w in workers {
            let k = w.iters.len();
            total += k;
            let error = w.iters.iter().any(|i| i.error.is_some());
            if k > hi || (k < lo && !error) {
                self.say(&["C01", "C11", "C16", "C17"], "iterations of a worker", format!("thread {} ran {k} iterations; {n} over {t} workers are {lo} to {hi} each", w.tid));
            }
        }
        if errors == 0 && total != n {
            self.say(&["C01", "C11", "C16", "C17"], "iterations", format!("{total} iterations were executed instead of {n}"));
        }
    }

    /// When the last thread that is not a worker began, if one was made to begin late.
    fn late_start(&self, workers: &[Worker]) -> u64 {
        self.h.delayed.iter().filter(|d| workers.iter().all(|w| w.tid != **d)).map(|d| self.h.starts.get(d).map(|s| s.1).unwrap_or(self.h.end_t)).max().unwrap_or(0)
    }

    /// The process ends when its workers have.
    fn ends(&mut self, workers: &[Worker]) {
        let last = workers.iter().filter_map(|w| own_list(self.h, w.tid).last()).map(|o| o.t).max().unwrap_or(MONO_BASE);
        let main = own_list(self.h, 0).iter().rev().find(|o| matches!(o.k, Ek::Dns | Ek::Close | Ek::Recv | Ek::Spawn | Ek::File)).map(|o| o.t).unwrap_or(MONO_BASE);
        let last = last.max(main).max(self.h.delayed.iter().map(|d| self.h.starts.get(d).map(|s| s.1).unwrap_or(self.h.end_t)).max().unwrap_or(0));
        let late = self.h.end_t.saturating_sub(last);
        self.f.end_slack = late;
        if late > SLACK {
            self.say(&["C01", "C12", "C13", "C14", "C20", "C16", "C17"], "exit", format!("the process ended {} ms after its last worker", late / MS));
        }
    }

    fn statistics(&mut self) {
        if !self.sc.stat {
            return;
        }
        let mut want: BTreeMap<String, Vec<u128>> = BTreeMap::new();
        let mut end = 0;
        for it in self.items {
            if let ItemKind::Block { name, dur, .. } = &it.kind {
                end = end.max(it.i_end);
                match parse_dur(dur) {
                    Some(d) => want.entry(name.clone()).or_default().push((d / MS) as u128),
                    None => return,
                }
            }
        }
        let mut got: BTreeMap<String, Vec<u128>> = BTreeMap::new();
        for it in self.items {
            if let ItemKind::Line(l) = &it.kind {
                if let Some((n, v)) = stat_line(l) {
                    if it.i < end {
                        self.say(&["C14", "C11", "C12", "C13"], "place of the statistics", format!("{:?} was printed before the last report", l));
                    }
                    if got.insert(n.clone(), v).is_some() {
                        self.say(&["C14", "C11", "C12", "C13"], "statistics", format!("two statistics lines for {n}"));
                    }
                }
            }
        }
        for (n, v) in &want {
            let sum: u128 = v.iter().sum();
            let exp = vec![v.len() as u128, sum, sum / v.len() as u128, *v.iter().max().unwrap(), *v.iter().min().unwrap()];
            match got.get(n) {
                None => self.say(&["C14", "C11", "C12", "C13"], "statistics", format!("no statistics for {n}, reported {} times", v.len())),
                Some(g) if *g != exp => {
                    self.say(&["C14", "C11", "C12", "C13"], "statistics", format!("{n}: count, sum, avg, max, min are {:?}, the reports say {:?}", g, exp))
                }
                _ => {}
            }
        }
        for n in got.keys() {
            if !want.contains_key(n) {
                self.say(&["C14", "C11", "C12", "C13"], "statistics", format!("statistics for {n}, which was never reported"));
            }
        }
    }

    /// An exchange is over soon after the server has closed.
    fn bounded(&mut self, x: &Ctx, workers: &[Worker]) {
        for w in workers {
            for (k, c) in w.calls() {
                let conn = match c.att.and_then(|a| x.used(a)) {
                    Some(c) => c,
                    None => continue,
                };
                let end = match (conn.fin, conn.rst) {
                    (Some(a), Some(b)) => a.min(b),
                    (Some(a), None) | (None, Some(a)) => a,
                    _ => continue,
                };
                // what was queued before takes the time to be sent and read
                if let Some((_, t)) = conn.close {
                    let sent = conn.sends.last().map(|s| s.1).unwrap_or(0);
                    let busy = end.max(sent);
                    if t > busy + 500 * MS {
                        self.say(
                            &["C16", "C08", "C17"],
                            "exchange outlives its connection",
                            format!("thread {}, iteration {k}, {}: the connection was closed {} ms after the server had closed it", w.tid, c.wire.name, (t - busy) / MS),
                        );
                    }
                }
            }
        }
    }

    /// Workers wait for nothing but their own exchanges.
    fn gaps(&mut self, workers: &[Worker]) {
        let h = self.h;
        for w in workers {
            let v = own_list(h, w.tid);
            for p in v.windows(2) {
                let gap = p[1].t - p[0].t;
                let own = matches!(p[0].k, Ek::Rcall | Ek::Swait | Ek::Dnsq | Ek::Connect | Ek::Spawn);
                if own {
                    continue;
                }
                if gap > self.f.max_gap {
                    self.f.max_gap = gap;
                    self.f.gap_at = format!("{:?} -> {:?}", p[0].k, p[1].k);
                }
                if gap > SLACK {
                    self.say(
                        &["C17"],
                        "held up",
                        format!("thread {} spent {} ms between {:?} (log line {}) and {:?} (log line {}), outside its own exchanges", w.tid, gap / MS, p[0].k, p[0].i + 1, p[1].k, p[1].i + 1),
                    );
                }
            }
            if let (Some(a), Some(b)) = (h.spawned.get(&w.tid), h.starts.get(&w.tid)) {
                if b.1 > a + SLACK {
                    self.say(&["C17"], "held up", format!("thread {} started {} ms after it was created", w.tid, (b.1 - a) / MS));
                }
            }
        }
    }

    /// All of them begin together.
    fn together(&mut self, workers: &[Worker]) {
        let h = self.h;
        let s: Vec<u64> = workers.iter().filter_map(|w| h.spawned.get(&w.tid).copied()).collect();
        if let (Some(a), Some(b)) = (s.iter().min(), s.iter().max()) {
            if b > &(a + SLACK) {
                self.say(&["C17", "C20"], "held up", format!("the last worker was created {} ms after the first", (b - a) / MS));
            }
        }
    }

    /// The reports of an iteration are there before the worker goes on.
    fn live(&mut self, workers: &[Worker]) {
        let (h, killed) = (self.h, self.f.killed);
        let blocks: Vec<&Item> = self.items.iter().filter(|i| matches!(i.kind, ItemKind::Block { .. })).collect();
        let own = blocks.iter().all(|b| workers.iter().any(|w| w.tid == b.tid));
        let mut used = vec![false; blocks.len()];
        for w in workers {
            let mut mine = blocks.iter().filter(|b| b.tid == w.tid);
            for (k, it) in w.iters.iter().enumerate() {
                // what the worker does next
                let next = match w.iters.get(k + 1).and_then(|n| n.first) {
                    Some((i, _)) => i,
                    None => match h.tends.get(&w.tid) {
                        Some((i, _)) => *i,
                        None => usize::MAX,
                    },
                };
                for c in &it.calls {
                    let b = if own {
                        mine.next().copied()
                    } else {
                        let i = (0..blocks.len()).find(|i| !used[*i] && block_diff(c, blocks[*i]).is_none());
                        i.map(|i| {
                            used[i] = true;
                            blocks[i]
                        })
                    };
                    match b {
                        Some(b) if b.i_end < next => {}
                        None if next == usize::MAX || !killed => {}
                        _ => {
                            let how = match b {
                                Some(b) => format!("appeared {} ms later", (b.t_end - it.last.map(|l| l.1).unwrap_or(b.t_end).min(b.t_end)) / MS),
                                None => "was not there when the process was killed".to_string(),
                            };
                            self.say(&["C26"], "report held back", format!("thread {}: the report of iteration {k}, {} was not there when the worker went on (log line {}), it {how}", w.tid, c.wire.name, next + 1));
                            return;
                        }
                    }
                }
            }
        }
    }

    /// Nothing is kept of an exchange that is over.
    fn held(&mut self, workers: &[Worker]) {
        let h = self.h;
        for w in workers {
            let atts: Vec<usize> = (0..h.attempts.len()).filter(|a| h.attempts[*a].tid == w.tid).collect();
            for (n, a) in atts.iter().enumerate() {
                let at = &h.attempts[*a];
                // what the worker does after it
                let next = match atts.get(n + 1) {
                    Some(b) => h.attempts[*b].i,
                    None => match h.tends.get(&w.tid) {
                        Some((i, _)) => *i,
                        None => continue,
                    },
                };
                let won = at.used.or_else(|| at.conns.iter().copied().filter(|c| matches!(h.conns[c].res, Some((_, _, 0)))).min_by_key(|c| h.conns[c].res.map(|r| r.0)));
                for k in &at.conns {
                    let c = &h.conns[k];
                    if Some(*k) == won {
                        if c.close.map(|x| x.0 > next).unwrap_or(true) {
                            self.say(&["C25"], "connection kept", format!("thread {}: connection {k} to {} was still open when the worker went on (log line {})", w.tid, c.host, next + 1));
                        }
                        continue;
                    }
                    let t = match c.res {
                        Some((_, t, _)) => t.max(won.and_then(|k| h.conns[&k].res).map(|r| r.1).unwrap_or(0)),
                        None => continue,
                    };
                    if h.end_t > t + SLACK && c.close.map(|x| x.1 > t + SLACK).unwrap_or(true) {
                        self.say(&["C25"], "connection kept", format!("thread {}: connection {k} to {}, which was not used, was not closed when its attempt was over", w.tid, c.host));
                    }
                }
                // files of exchanges before
                let open = h.opens.iter().filter(|o| o.1 == w.tid && !o.3 && o.4 >= 0 && o.0 < at.i).count();
                let shut = h.opens.iter().filter(|o| o.1 == w.tid && !o.3 && o.4 >= 0 && o.0 < at.i).filter(|o| h.rcloses.iter().any(|r| r.0 > o.0 && r.0 < next && r.1 == o.2)).count();
                if open > shut {
                    self.say(&["C25"], "file kept", format!("thread {}: {} of the files opened for exchanges were still open when the worker went on (log line {})", w.tid, open - shut, next + 1));
                }
            }
            // threads it started for something else and that stay
            for k in atts.windows(3) {
                let (born, at) = (h.attempts[k[0]].i, h.attempts[k[2]].i);
                let n = h.parents.iter().filter(|(c, (p, i))| *p == w.tid && *i < born && h.tends.get(c).map(|x| x.0 > at).unwrap_or(true) && !h.conns.values().any(|x| x.tid == **c)).count();
                if n > 3 {
                    self.say(&["C25"], "thread kept", format!("thread {}: {n} threads it had started were still there two calls later (log line {})", w.tid, at + 1));
                    break;
                }
            }
            // threads started for its connections
            for (c, (p, _)) in &h.parents {
                if *p != w.tid {
                    continue;
                }
                let conns: Vec<&Conn> = h.conns.values().filter(|x| x.tid == *c).collect();
                if conns.is_empty() || conns.iter().any(|x| x.res.is_none()) {
                    continue;
                }
                let t = conns.iter().filter_map(|x| x.res).map(|r| r.1).max().unwrap_or(0);
                if h.end_t > t + SLACK && h.tends.get(c).map(|x| x.1 > t + SLACK).unwrap_or(true) {
                    self.say(&["C25"], "thread kept", format!("thread {c}, which thread {} started to connect, did not end when its attempt was over", w.tid));
                }
            }
        }
        if let (Some(n), Some(End::Exit(_))) = (h.held, &h.end) {
            if n > 0 {
                self.say(&["C25"], "file kept", format!("{n} files were open when the process ended"));
            }
        }
        if self.sc.flavour == "memory" && h.heap.len() >= 40 {
            let v: Vec<i64> = h.heap.iter().map(|x| x.1).collect();
            let (q, n) = (v.len() / 4, v.len());
            let early = *v[..q].iter().max().unwrap();
            let late = *v[n - q..].iter().min().unwrap();
            self.f.growth = self.f.growth.max(late - early);
            if late > early + GROWTH {
                self.say(&["C25"], "memory kept", format!("the program held at most {} KiB during the first quarter of {n} exchanges and at least {} KiB during the last", early / 1024, late / 1024));
            }
        }
    }

    /// Nothing readable for a peer that is not trusted.
    fn peers(&mut self) {
        for c in self.h.conns.values() {
            let host = match self.sc.plan.hosts.iter().find(|x| x.name == c.host) {
                Some(x) => x,
                None => continue,
            };
            let tls = &self.sc.plan.services[host.service].tls;
            let to = c.close.map(|x| x.1).unwrap_or(self.h.end_t).max(c.t);
            if peer_ok(self.sc, self.h, tls, &c.host, c.t, to) == Some(false) && !c.rx.is_empty() {
                self.say(&["C15"], "request sent to an untrusted peer", format!("connection {} to {} ({}) received {}", c.scope, c.host, tls, text(&c.rx)));
            }
            for needle in [&b"HTTP/1."[..], b"Host:", b"Connection: close"] {
                if find(&c.raw, needle).is_some() {
                    self.say(&["C15"], "request outside TLS", format!("connection {} to {} ({}) carried {}", c.scope, c.host, tls, text(&c.raw)));
                    break;
                }
            }
        }
    }

    // --------------------------------------------------------- connecting

    fn race(&mut self, x: &Ctx, a: usize) {
        let h = self.h;
        let at = &h.attempts[a];
        let ips = match &at.dns {
            Some((_, _, 0, ips)) if !ips.is_empty() => ips,
            _ => {
                if !at.conns.is_empty() {
                    self.say(&["C07"], "connection without an address", format!("attempt at log line {}", at.i + 1));
                }
                return;
            }
        };
        let who = format!("thread {}, {} (log line {})", at.tid, at.host, at.i + 1);
        let mut conns: Vec<&Conn> = at.conns.iter().map(|k| &h.conns[k]).collect();
        conns.sort_by_key(|c| c.i);
        let ok: Vec<&&Conn> = conns.iter().filter(|c| matches!(c.res, Some((_, _, 0)))).collect();
        let first_ok = ok.iter().map(|c| c.res.unwrap().1).min();
        let used = x.used(a);
        // the winner
        match (first_ok, used) {
            (Some(t), Some(u)) => match u.res {
                Some((_, ut, 0)) => {
                    if ut > t + 20 * MS {
                        self.say(&["C07"], "not the first connection", format!("{who}: a connection was established {} ms before the one that was used", (ut - t) / MS));
                    }
                    let sent = u.sends.first().map(|s| s.1).or(u.recvs.first().map(|s| s.1));
                    if let Some(s) = sent {
                        if s > ut + SLACK {
                            self.say(&["C07"], "slow start", format!("{who}: {} ms passed between the connection and the first byte of the request", (s - ut) / MS));
                        }
                    }
                }
                _ => {}
            },
            (Some(t), None) => {
                if h.end_t > t + SLACK {
                    self.say(&["C07"], "working address not used", format!("{who}: a connection was established, but the request was not sent on it"));
                }
            }
            _ => {}
        }
        if at.sockfail > 0 {
            return;
        }
        // the order
        let v6: Vec<&String> = ips.iter().filter(|i| i.contains(':')).collect();
        let v4: Vec<&String> = ips.iter().filter(|i| !i.contains(':')).collect();
        let mut order: Vec<&String> = Vec::new();
        for k in 0..v6.len().max(v4.len()) {
            order.extend(v6.get(k));
            order.extend(v4.get(k));
        }
        let pos = |c: &Conn| order.iter().position(|o| **o == c.ip);
        let mut idx = Vec::new();
        for c in &conns {
            match pos(c) {
                Some(p) => idx.push((p, c.t)),
                None => self.say(&["C07"], "unknown address", format!("{who}: {} is not an address of the host", c.ip)),
            }
        }
        let set: BTreeSet<usize> = idx.iter().map(|x| x.0).collect();
        if set.len() < idx.len() {
            self.say(&["C07"], "address tried twice", format!("{who}: {:?} tried {:?}", order, idx));
            return;
        }
        let end_near = first_ok.map(|t| h.end_t < t + SLACK).unwrap_or(false);
        if set.iter().copied().ne(0..set.len()) && !end_near {
            self.say(&["C07"], "order of addresses", format!("{who}: of {:?}, numbers {:?} were tried", order, set));
            return;
        }
        for i in 0..idx.len() {
            for j in i + 1..idx.len() {
                if idx[j].1 > idx[i].1 + 20 * MS && idx[j].0 < idx[i].0 {
                    self.say(&["C07"], "order of addresses", format!("{who}: {} was tried {} ms after {}", order[idx[j].0], (idx[j].1 - idx[i].1) / MS, order[idx[i].0]));
                    return;
                }
            }
        }
        // the pace
        let dns_t = at.dns.as_ref().unwrap().1;
        let n = order.len();
        let fails: Vec<u64> = conns.iter().filter_map(|c| c.res).filter(|r| r.2 != 0).map(|r| r.1).collect();
        let starts: Vec<u64> = conns.iter().map(|c| c.t).collect();
        let won = |t: u64| first_ok.map(|w| w <= t).unwrap_or(false);
        let tol = 20 * MS;
        let mut checks: Vec<u64> = fails.clone();
        checks.push(dns_t);
        for f in checks {
            let need = (1 + fails.iter().filter(|x| **x <= f).count()).min(n);
            let have = starts.iter().filter(|s| **s <= f + tol).count();
            if have < need && !won(f + tol) && h.end_t > f + tol {
                self.say(&["C07"], "next address not tried at once", format!("{who}: {have} addresses had been tried {} ms after {need} were due", tol / MS));
                return;
            }
        }
        for k in 0..n {
            let prev = if k == 0 { dns_t } else { starts.get(k - 1).copied().unwrap_or(u64::MAX) };
            if prev == u64::MAX {
                break;
            }
            let due = prev + 205 * MS;
            let done = starts.get(k).map(|s| *s <= due).unwrap_or(false);
            if !done && !won(due) && h.end_t > due {
                self.say(&["C07"], "hanging address delays the next", format!("{who}: address {} was not tried within 200 ms of the one before", order[k]));
                return;
            }
        }
        // at most one start per 200 ms or failure
        let mut hurried = 0;
        for k in 1..starts.len() {
            let early = starts[k] + tol < starts[k - 1] + 200 * MS;
            hurried += early as usize;
            let failed = fails.iter().filter(|f| **f <= starts[k] + tol).count();
            if early && hurried > failed {
                self.say(&["C07"], "address tried too early", format!("{who}: address number {k} was tried {} ms after the one before, which had not failed", (starts[k] - starts[k - 1]) / MS));
                return;
            }
        }
        // nobody answered
        if first_ok.is_none() && conns.iter().all(|c| c.res.is_some()) && conns.len() == n {
            let last = fails.iter().max().copied().unwrap_or(dns_t);
            let last_i = conns.iter().filter_map(|c| c.res).map(|r| r.0).max().unwrap_or(at.i);
            let end = next_own(h, at.tid, last_i).map(|o| o.t).unwrap_or(h.end_t);
            if end > last + SLACK {
                self.say(&["C07"], "failure reported late", format!("{who}: nothing happened for {} ms after the last address had failed", (end - last) / MS));
            }
        } else if first_ok.is_none() && conns.len() < n && !h.per.is_empty() && h.end != Some(End::Killed) {
            self.say(&["C07"], "address not tried", format!("{who}: {} of {n} addresses were tried and none accepted", conns.len()));
        }
    }

    // ------------------------------------------------------------ records

    fn records(&mut self, x: &Ctx, workers: &[Worker]) {
        let sc = self.sc;
        let disk = sc.plan.fs.capacity != u64::MAX || self.h.fwrites.iter().any(|w| w.5 < 0 && w.5 != -4);
        let full: &[&'static str] = &["C09", "C10", "C11", "C12", "C13", "C20"];
        let mut files: Vec<(String, avro::File)> = Vec::new();
        for (name, data) in &self.out.files {
            let ok = name.strip_prefix(sc.pod.as_str()).map(|r| r.len() == 6 && r.chars().all(|c| c.is_ascii_digit())).unwrap_or(false);
            if !ok {
                self.say(&["C09"], "name of a recording", format!("file {name}"));
            }
            match avro::decode(data) {
                Ok(f) => files.push((name.clone(), f)),
                Err(e) => {
                    self.say(&["C09", "C10", "C11", "C12", "C13", "C20"], "recording does not decode", format!("file {name}: {e}"));
                }
            }
        }
        if !self.vs.is_empty() && self.vs.iter().any(|v| v.rule == "recording does not decode") {
            return;
        }
        for (name, f) in &files {
            self.f.records += f.records.len() as u64;
            self.f.torn += (f.torn > 0) as u64;
            if let Some(k) = f.blocks.iter().position(|b| *b == 0) {
                if f.blocks[k..].iter().any(|b| *b > 0) {
                    self.say(&["C09", "C10", "C11"], "empty block", format!("file {name}: block {k} is empty; a reader stops there and misses what follows"));
                }
            }
            if (f.torn > 0 || f.header_torn) && !disk && !x.killed {
                self.say(&["C09", "C12", "C13", "C20"], "torn recording", format!("file {name} ends with {} bytes of an incomplete block", f.torn));
            }
        }
        if x.killed && !disk {
            // the header is there before the first request
            let ready = files.iter().filter(|f| !f.1.header_torn).count();
            let active = workers.iter().filter(|w| own_list(self.h, w.tid).iter().any(|o| matches!(o.k, Ek::Dnsq | Ek::Out))).count();
            if ready < active {
                self.say(&["C10"], "recording without a header", format!("{active} workers have begun, {ready} recordings are there and have their header"));
            }
        }
        // which file is whose
        let mut left: Vec<usize> = (0..files.len()).collect();
        let mut pairs: Vec<(usize, Option<usize>, Vec<V>)> = Vec::new();
        let mut open: Vec<usize> = (0..workers.len()).collect();
        let mut table: BTreeMap<(usize, usize), Vec<V>> = BTreeMap::new();
        for w in 0..workers.len() {
            for f in 0..files.len() {
                table.insert((w, f), self.match_file(x, &workers[w], &files[f].0, &files[f].1, disk));
            }
        }
        for pass in 0..2 {
            let mut k = 0;
            while k < open.len() {
                let w = open[k];
                let best = left.iter().copied().min_by_key(|f| (table[&(w, *f)].len(), files[*f].0.clone()));
                let best = if pass == 0 {
                    // the file of the worker with the same position, if it fits, or any that fits
                    let same = left.iter().copied().find(|f| *f == w && table[&(w, *f)].is_empty());
                    same.or(left.iter().copied().find(|f| table[&(w, *f)].is_empty() && !files[*f].1.records.is_empty()))
                        .or(left.iter().copied().find(|f| table[&(w, *f)].is_empty()))
                } else {
                    best
                };
                match best {
                    Some(f) => {
                        left.retain(|g| *g != f);
                        open.remove(k);
                        pairs.push((w, Some(f), table[&(w, f)].clone()));
                    }
                    None => k += 1,
                }
            }
        }
        for w in open {
            pairs.push((w, None, vec![]));
        }
        let mut numbers: BTreeMap<i64, usize> = BTreeMap::new();
        for (w, f, d) in pairs {
            match f {
                None => {
                    let due = workers[w].calls().count();
                    if due > 0 && !disk && !x.killed {
                        self.say(full, "recording missing", format!("no file has the {due} exchanges of thread {}", workers[w].tid));
                    }
                }
                Some(f) => {
                    self.vs.extend(d);
                    for r in &files[f].1.records {
                        let t = r.long("thread");
                        if *numbers.entry(t).or_insert(f) != f {
                            self.say(&["C09"], "worker number", format!("worker number {t} is used in two files"));
                            numbers.insert(t, f);
                        }
                    }
                }
            }
        }
        for f in left {
            if !files[f].1.records.is_empty() {
                self.say(full, "records nobody made", format!("file {} holds {} records no worker accounts for", files[f].0, files[f].1.records.len()));
            }
        }
    }

    fn match_file(&self, x: &Ctx, w: &Worker, name: &str, f: &avro::File, disk: bool) -> Vec<V> {
        let mut vs: Vec<V> = Vec::new();
        let mut say = |p: &[&'static str], r: &'static str, m: String| vs.push(V { props: p.to_vec(), rule: r, msg: m });
        let due: Vec<(usize, &Call)> = w.calls().collect();
        let who = format!("file {name}, thread {}", w.tid);
        let whole: &[&'static str] = &["C09", "C11", "C12", "C13", "C20"];
        let n = f.records.len();
        if n > due.len() {
            say(&["C09", "C10", "C11", "C20"], "records", format!("{who}: {n} records of {} calls", due.len()));
            return vs;
        }
        // whole iterations
        let ends: BTreeSet<usize> = {
            let mut s = BTreeSet::new();
            let mut k = 0;
            s.insert(0);
            for it in &w.iters {
                k += it.calls.len();
                s.insert(k);
            }
            s
        };
        if !disk && !x.killed {
            if n < due.len() {
                say(whole, "records", format!("{who}: {n} records of {} calls", due.len()));
            }
        } else {
            if !ends.contains(&n) {
                say(&["C10", "C11"], "part of an iteration", format!("{who}: the {n} records end inside an iteration"));
            }
            if x.killed && !disk {
                // all iterations that were over when the next one began
                let mut must = 0;
                let mut k = 0;
                for (i, it) in w.iters.iter().enumerate() {
                    k += it.calls.len();
                    let next = w.iters.get(i + 1).map(|n| n.first.is_some()).unwrap_or(false);
                    if next {
                        must = k;
                    }
                }
                if n < must {
                    say(&["C10"], "finished iteration lost", format!("{who}: {n} records, but {must} exchanges belong to iterations that were over"));
                }
            }
        }
        let thread = name[name.len().saturating_sub(6)..].parse::<i64>().unwrap_or(-1);
        let mut bad = 0;
        for (r, (k, c)) in f.records.iter().zip(&due) {
            let mut d = self.record_diff(w, *k, c, r, thread);
            if !d.is_empty() && !x.killed && !disk || !d.is_empty() {
                bad += 1;
            }
            for v in d.iter_mut() {
                v.msg = format!("{who}, iteration {k}, {}: {}", c.wire.name, v.msg);
            }
            vs.extend(d);
            if bad > 3 {
                break;
            }
        }
        // what is there of a torn block must be the next records
        for (r, (k, c)) in f.torn_records.iter().zip(due.iter().skip(n)) {
            let d = self.record_diff(w, *k, c, r, thread);
            if let Some(v) = d.first() {
                vs.push(V { props: vec!["C10", "C11"], rule: "torn block", msg: format!("{who}: {}", v.msg) });
                break;
            }
        }
        if n + f.torn_records.len() > due.len() {
            vs.push(V { props: vec!["C10", "C11"], rule: "torn block", msg: format!("{who}: the torn block holds more records than were made") });
        }
        if let Some((k, c)) = due.get(n + f.torn_records.len()) {
            for (field, v) in &f.torn_fields {
                let want = match field.as_str() {
                    "name" => Some(Av::Str(w.test.clone())),
                    "number" => Some(Av::Long(*k as i64)),
                    "request_name" => Some(Av::Str(c.wire.name.clone())),
                    "request_url" => Some(Av::Str(c.wire.url.clone())),
                    _ => None,
                };
                if let Some(x) = want {
                    let same = match (&x, v) {
                        (Av::Str(a), Av::Str(b)) if field == "request_url" => *a == plain_url(b),
                        _ => x == *v,
                    };
                    if !same {
                        vs.push(V { props: vec!["C10", "C11"], rule: "torn block", msg: format!("{who}: {field} is {:?} instead of {:?}", v, x) });
                        break;
                    }
                }
            }
        } else if !f.torn_fields.is_empty() {
            vs.push(V { props: vec!["C10", "C11"], rule: "torn block", msg: format!("{who}: bytes of a record behind the last one due") });
        }
        vs
    }

    fn record_diff(&self, w: &Worker, k: usize, c: &Call, r: &Av, thread: i64) -> Vec<V> {
        let mut vs: Vec<V> = Vec::new();
        let base: Vec<&'static str> = vec!["C09", "C10", "C11", "C20"];
        let mut say = |extra: &[&'static str], field: &str, got: String, want: String| {
            let mut p = base.clone();
            p.extend(extra);
            vs.push(V { props: p, rule: "record", msg: format!("{field} is {} instead of {}", short(&got), short(&want)) });
        };
        let s = |say: &mut dyn FnMut(&[&'static str], &str, String, String), extra: &[&'static str], field: &str, want: &str| {
            if r.str(field) != want {
                say(extra, field, format!("{:?}", r.str(field)), format!("{:?}", want));
            }
        };
        s(&mut say, &[], "name", &w.test);
        s(&mut say, &[], "request_name", &c.wire.name);
        s(&mut say, &["C05"], "request_method", &c.wire.method);
        if plain_url(&r.str("request_url")) != c.wire.url {
            say(&["C05"], "request_url", format!("{:?}", r.str("request_url")), format!("{:?}", c.wire.url));
        }
        s(&mut say, &["C05"], "request_version", &c.wire.version);
        if let Some(t) = &c.wire.text {
            if r.str("request_body").trim() != t.trim() {
                say(&["C06"], "request_body", format!("{:?}", r.str("request_body")), format!("{:?}", t));
            }
        }
        if let Some(parts) = &c.wire.parts {
            // the declared lines, in order
            let got = r.str("request_body");
            let mut rest = &got[..];
            for (a, b) in parts {
                let Some(i) = rest.find(&format!("{a}: {b}")) else {
                    say(&["C06"], "request_body", format!("{:?}", got), format!("the declared parts, with {a}: {b}"));
                    break;
                };
                rest = &rest[i + a.len() + 2 + b.len()..];
            }
        }
        for (field, want) in [("thread", thread), ("number", k as i64), ("order", c.order as i64)] {
            if r.long(field) != want {
                say(&[], field, r.long(field).to_string(), want.to_string());
            }
        }
        let heads = |field: &str| -> Vec<(String, String)> {
            match r.field(field) {
                Some(Av::Arr(v)) => v
                    .iter()
                    .map(|p| match p {
                        Av::Arr(x) => match &x[..] {
                            [Av::Str(a), Av::Str(b)] => (a.clone(), b.clone()),
                            _ => ("?".into(), format!("{:?}", x)),
                        },
                        other => ("?".into(), format!("{:?}", other)),
                    })
                    .collect(),
                _ => vec![("?".into(), "?".into())],
            }
        };
        let got: Vec<(String, String)> = heads("request_headers")
            .into_iter()
            .map(|(a, b)| match (&c.wire.parts, b.split_once("; boundary=")) {
                (Some(_), Some((t, _))) => (a, t.to_string()),
                _ => (a, b),
            })
            .collect();
        if got != c.wire.headers {
            say(&["C06"], "request_headers", format!("{:?}", got), format!("{:?}", c.wire.headers));
        }
        let resp = match &c.res {
            Res::Done(s) => Some(s),
            _ => None,
        };
        let unknown = matches!(c.res, Res::Unknown);
        if !unknown {
            let e = r.str("error");
            let failed = resp.is_none();
            if failed == e.is_empty() {
                say(&["C03", "C16", "C21"], "error", format!("{:?}", e), (if failed { "an error" } else { "none" }).to_string());
            }
            let d = Resp::default();
            let (x, known) = match resp {
                Some(s) => (&s.resp, s.body_known),
                None => (&d, true),
            };
            let e: &[&'static str] = &["C04", "C06"];
            s(&mut say, e, "response_version", &x.version);
            s(&mut say, e, "response_reason", &x.reason);
            if known {
                s(&mut say, e, "response_body", &x.body);
            } else if !x.body.starts_with(&r.str("response_body")) {
                say(e, "response_body", r.str("response_body"), format!("a prefix of {:?}", x.body));
            }
            if r.long("response_status") != x.status {
                say(e, "response_status", r.long("response_status").to_string(), x.status.to_string());
            }
            let got = heads("response_headers");
            if got != x.headers {
                say(e, "response_headers", format!("{:?}", got), format!("{:?}", x.headers));
            }
        }
        let got: Vec<String> = match r.field("asserts") {
            Some(Av::Arr(v)) => v
                .iter()
                .map(|a| {
                    format!("{} => {} {} {} => {}", a.str("expr"), a.str("left"), a.str("compare"), a.str("right"), matches!(a.field("result"), Some(Av::Bool(true))))
                })
                .collect(),
            _ => vec![],
        };
        let same = got.len() == c.block.lines.len() && got.iter().zip(&c.block.lines).all(|(g, w)| fits(g, w));
        if !same {
            say(&["C03", "C04"], "asserts", format!("{:?}", got), format!("{:?}", c.block.lines));
        }
        drop(say);
        vs.extend(self.times(w, k, c, r));
        vs
    }

    /// The times of a record against the times of the events.
    fn times(&self, w: &Worker, k: usize, c: &Call, r: &Av) -> Vec<V> {
        let mut vs: Vec<V> = Vec::new();
        let mut say = |field: &str, m: String| vs.push(V { props: vec!["C08"], rule: "time", msg: format!("{field} {m}") });
        let [total, resolve, connect, write, delay, read] =
            ["time_total", "time_resolve", "time_connect", "time_write", "time_delay", "time_read"].map(|f| r.long(f));
        let h = self.h;
        // the printed duration
        let nth = w.calls().position(|(i, x)| i == k && x.order == c.order).unwrap_or(0);
        let blocks: Vec<&Item> = self.items.iter().filter(|i| i.tid == w.tid && matches!(i.kind, ItemKind::Block { .. })).collect();
        if let Some(b) = blocks.get(nth) {
            if parse_dur(block(b).3) != Some(total as u64) && *block(b).0 == c.wire.name {
                say("printed duration", format!("is {} but the record says {total} ns", block(b).3));
            }
        }
        if !matches!(c.res, Res::Done(_)) {
            return vs;
        }
        let a = match c.att {
            Some(a) => &h.attempts[a],
            None => return vs,
        };
        let conn = match a.used.and_then(|u| h.conns.get(&u)) {
            Some(c) => c,
            None => return vs,
        };
        if total != resolve + connect + write + delay + read {
            say("total", format!("{total} is not the sum {resolve}+{connect}+{write}+{delay}+{read}"));
        }
        let tls = c.wire.scheme == "https";
        let tid = a.tid;
        let (q, dns) = match &a.dns {
            Some(d) => (a.t, (d.0, d.1)),
            None => return vs,
        };
        let prev = |i: usize, skip: &[Ek]| prev_own(h, tid, i, skip).map(|o| o.t).unwrap_or(MONO_BASE);
        let next = |i: usize| next_own(h, tid, i).map(|o| o.t).unwrap_or(h.end_t);
        let p0 = prev(a.i, &[]);
        let ps = prev(a.i, &[Ek::File, Ek::Other]);
        let (close_i, close) = match conn.close {
            Some(c) => c,
            None => return vs,
        };
        let connres = match conn.res {
            Some((_, t, 0)) => t,
            _ => return vs,
        };
        let sends: Vec<&(usize, u64, usize, i64)> = conn.sends.iter().filter(|s| s.0 < close_i).collect();
        let recvs: Vec<&(usize, u64, usize, i64)> = conn.recvs.iter().filter(|s| s.0 < close_i).collect();
        let resp_t = conn.resps.first().map(|r| (r.i, r.t));
        let (first_send, last_send) = match (sends.first(), sends.last()) {
            (Some(a), Some(b)) => (a, b),
            _ => return vs,
        };
        let rcall = conn.rcalls.iter().find(|r| r.0 > last_send.0);
        let rcall1 = match rcall {
            Some(r) => r,
            None => return vs,
        };
        let recv1 = match recvs.iter().find(|r| r.0 > rcall1.0) {
            Some(r) => r,
            None => return vs,
        };
        let last_recv = recvs.last().unwrap();
        let after_close = next(close_i);
        let mut within = |name: &str, v: i64, lo: u64, hi: u64| {
            // a microsecond of rounding
            if (v as i128) < lo as i128 - TIMETOL || v as i128 > hi as i128 + TIMETOL {
                say(name, format!("is {v} ns, but between {lo} and {hi} ns passed"));
            }
        };
        let sub = |a: u64, b: u64| a.saturating_sub(b);
        within("resolve", resolve, sub(dns.1, q), sub(next(dns.0), p0));
        within("resolve+connect", resolve + connect, sub(connres, q), sub(first_send.1, ps));
        // (over TLS answers may arrive while the request is still being sent)
        let wl = if tls {
            let before: Vec<_> = sends.iter().filter(|s| resp_t.map(|r| s.0 < r.0).unwrap_or(true)).collect();
            before.last().map(|l| sub(l.1, first_send.1)).unwrap_or(0)
        } else {
            sub(last_send.1, first_send.1)
        };
        within("write", write, wl, sub(rcall1.1, connres) + sub(after_close, close));
        let (resp_i, resp_at) = resp_t.unwrap_or((recv1.0, recv1.1));
        if tls {
            let lo = if resp_i > rcall1.0 { sub(resp_at, rcall1.1) } else { 0 };
            within("delay", delay, lo, sub(next(last_recv.0), last_send.1));
            within("read", read, 0, sub(after_close, resp_at.max(rcall1.1)));
            within("delay+read", delay + read, sub(last_recv.1, rcall1.1), sub(after_close, last_send.1));
        } else {
            let d_hi = next(recv1.0);
            within("delay", delay, sub(recv1.1, rcall1.1), sub(d_hi, last_send.1));
            within("read", read, sub(last_recv.1, d_hi), sub(after_close, recv1.1));
        }
        within("total", total, sub(last_recv.1, q), sub(after_close, ps));
        // wall clock
        let jumps = &h.walljumps;
        let mut wall = |name: &str, v: i64, lo: u64, hi: u64| {
            let mut edges = vec![lo];
            edges.extend(jumps.iter().map(|j| j.1).filter(|t| *t > lo && *t <= hi));
            edges.push(hi);
            let off = |t: u64| -> i128 { self.sc.plan.wall_offset as i128 + jumps.iter().filter(|j| j.1 <= t).map(|j| j.2 as i128).sum::<i128>() };
            let at = |t: u64, o: i128| (WALL_BASE as i128 + t as i128 - MONO_BASE as i128 + o).max(0);
            let tol = 2 * MS as i128;
            let mut ok = false;
            for e in edges.windows(2) {
                // either side of the jump at the edge
                for o in [off(e[0]), off(e[0].saturating_sub(1))] {
                    ok |= v as i128 >= at(e[0], o) - tol && v as i128 <= at(e[1], o) + tol;
                }
            }
            if !ok {
                say(name, format!("is {v}, the clock read {} to {}", at(lo, off(lo)), at(hi, off(hi))));
            }
        };
        wall("start", r.long("time_start"), ps, q);
        wall("end", r.long("time_end"), last_recv.1, after_close);
        vs
    }
}

/// What a program of the statements the generator uses prints; None: something else is in it.
fn source(text: &str) -> Option<Vec<String>> {
    let mut out = Vec::new();
    let mut last = Vec::new();
    let mut order = String::new();
    let mut inside = false;
    let mut rest = text.trim_start();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("test t {") {
            if inside {
                return None;
            }
            inside = true;
            rest = r;
        } else if let Some(r) = rest.strip_prefix('}') {
            if !inside {
                return None;
            }
            inside = false;
            rest = r;
        } else if let Some(r) = rest.strip_prefix("println(\"") {
            let (s, r) = r.split_once('"')?;
            let r = match r.strip_prefix(");") {
                Some(r) => r,
                None => r.strip_prefix(", order);")?,
            };
            if inside {
                last.push(s.to_string());
            } else {
                out.push(s.replacen("{o}", &order, 1));
            }
            rest = r;
        } else if let Some(r) = rest.strip_prefix("let order = ") {
            let (n, r) = r.split_once(';')?;
            if inside || n.parse::<u32>().is_err() {
                return None;
            }
            order = n.to_string();
            rest = r;
        } else if let Some(r) = rest.strip_prefix("let pad = \"") {
            let (_, r) = r.split_once('"')?;
            rest = r.strip_prefix(';')?;
        } else {
            return None;
        }
        rest = rest.trim_start();
    }
    if inside {
        return None;
    }
    out.extend(last.iter().map(|s| s.replacen("{o}", &order, 1)));
    Some(out)
}

fn rel(p: &str) -> String {
    match p.rfind("src/") {
        Some(i) => p[i..].to_string(),
        None => p.to_string(),
    }
}

fn line(it: &Item) -> &String {
    match &it.kind {
        ItemKind::Line(l) => l,
        ItemKind::Block { name, .. } => name,
    }
}
fn block(it: &Item) -> (&String, &Vec<String>, bool, &String) {
    match &it.kind {
        ItemKind::Block { name, lines, pass, dur } => (name, lines, *pass, dur),
        _ => unreachable!(),
    }
}

fn fits(got: &str, want: &ExpLine) -> bool {
    match want {
        ExpLine::Exact(s) => got == s,
        ExpLine::Prefix(p) => got.starts_with(p.as_str()) && (got.ends_with(" => true") || got.ends_with(" => false")),
    }
}

fn block_diff(c: &Call, b: &Item) -> Option<(&'static str, String)> {
    let (name, lines, pass, dur) = block(b);
    if name != &c.block.name {
        return Some(("reports", format!("the report is of {name} instead")));
    }
    if lines.len() != c.block.lines.len() {
        // values with line breaks take several lines
        let joined = lines.join("\n");
        if !c.block.lines.iter().any(|l| matches!(l, ExpLine::Prefix(_)) || matches!(l, ExpLine::Exact(s) if s.contains('\n'))) || joined.is_empty() {
            return Some(("shape", format!("{} assertion lines instead of {}: {}", lines.len(), c.block.lines.len(), short(&joined))));
        }
    } else {
        for (g, w) in lines.iter().zip(&c.block.lines) {
            if !fits(g, w) {
                return Some(("assertion values", format!("{:?} instead of {:?}", short(g), w)));
            }
        }
    }
    let all = lines.iter().all(|l| l.ends_with(" => true"));
    let ok = match (&c.block.pass, &c.res) {
        (Some(p), _) => *p == pass,
        (None, Res::Unknown) => !pass || all,
        (None, _) => pass == all,
    };
    if !ok {
        return Some(("verdict", format!("reported {}", if pass { "PASS" } else { "FAIL" })));
    }
    if parse_dur(dur).is_none() {
        return Some(("shape", format!("duration {:?}", dur)));
    }
    None
}

/// name and count, sum, avg, max, min
fn stat_line(l: &str) -> Option<(String, Vec<u128>)> {
    let i = l.find(" count=")?;
    let mut v = Vec::new();
    let mut p = l[i..].split_whitespace();
    for k in ["count=", "sum=", "avg=", "max=", "min="] {
        v.push(p.next()?.strip_prefix(k)?.parse().ok()?);
    }
    if p.next().is_some() {
        return None;
    }
    Some((l[..i].to_string(), v))
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let part = |v: &[u8]| text(&v[k.min(v.len())..(k + 60).min(v.len())]);
    format!("{} bytes, expected {}; from byte {k}: {} instead of {}", a.len(), b.len(), part(a), part(b))
}

fn wire_ok(w: &Wire, rx: &[u8], whole: bool, extra: &[(String, String)]) -> Result<(), String> {
    if let Some(body) = &w.body {
        let mut want = w.head.clone();
        want.extend_from_slice(body);
        let ok = if whole { rx == &want[..] } else { want.starts_with(rx) };
        return if ok { Ok(()) } else { Err(first_diff(rx, &want)) };
    }
    // multipart
    let cut = match find(rx, b"\r\n\r\n") {
        Some(i) => i + 4,
        None if !whole => {
            // the boundary may stand behind the content type
            let t = String::from_utf8_lossy(rx).to_string();
            let want = String::from_utf8_lossy(&w.head).to_string();
            let want: Vec<&str> = want.split("\r\n").collect();
            for (i, l) in t.split("\r\n").enumerate() {
                let x = want.get(i).copied().unwrap_or("");
                let form = x.to_lowercase().starts_with("content-type: multipart/form-data");
                if !x.starts_with(l) && !(form && l.starts_with(x)) {
                    return Err(format!("head line {:?} instead of {:?}", l, x));
                }
            }
            return Ok(());
        }
        None => return Err("no complete head".into()),
    };
    let head = String::from_utf8_lossy(&rx[..cut]).to_string();
    let mut declared = None;
    let lines: Vec<String> = head
        .split("\r\n")
        .map(|l| {
            if l.to_lowercase().starts_with("content-type: multipart/form-data") {
                if let Some((t, b)) = l.split_once("; boundary=") {
                    declared = Some(b.trim_matches('"').to_string());
                    return t.to_string();
                }
            }
            l.to_string()
        })
        .collect();
    if lines.join("\r\n").as_bytes() != &w.head[..] {
        return Err(first_diff(lines.join("\r\n").as_bytes(), &w.head));
    }
    // an empty preamble is allowed
    let body = &rx[cut..];
    let body = body.strip_prefix(b"\r\n").unwrap_or(body);
    let parts = w.parts.as_ref().unwrap();
    let closed = |b: &str| body.ends_with(format!("--{b}--\r\n").as_bytes()) || body.ends_with(format!("--{b}--").as_bytes());
    let boundary = match find(body, b"\r\n") {
        Some(i) if body.starts_with(b"--") => String::from_utf8_lossy(&body[2..i]).to_string(),
        _ => {
            return if whole { Err(format!("no boundary line in {}", text(body))) } else { Ok(()) };
        }
    };
    if declared.is_none() && w.headers.iter().any(|(n, v)| n.eq_ignore_ascii_case("content-type") && v.starts_with("multipart/form-data")) {
        return Err("the content type does not tell the boundary".into());
    }
    if let Some(d) = &declared {
        if *d != boundary {
            return Err(format!("the boundary is declared as {d} but is {boundary}"));
        }
    }
    if !whole {
        // a failed upload must not look complete, unless it was
        if !closed(&boundary) {
            return Ok(());
        }
    } else if !closed(&boundary) {
        return Err("the upload is not closed".into());
    }
    // the parts
    let delim = format!("\r\n--{boundary}");
    let mut padded = b"\r\n".to_vec();
    padded.extend_from_slice(body);
    let mut got: Vec<(String, bool, Vec<u8>)> = Vec::new();
    let mut rest = &padded[..];
    while let Some(i) = find(rest, delim.as_bytes()) {
        let s = i + delim.len();
        if rest[s..].starts_with(b"--") {
            break;
        }
        rest = &rest[s..];
        let end = find(rest, delim.as_bytes()).ok_or("a part is not ended")?;
        let part = &rest[..end];
        let h = find(part, b"\r\n\r\n").ok_or("a part has no head")?;
        let head = String::from_utf8_lossy(&part[..h]).to_string();
        let name = head.split("name=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
        got.push((name, head.contains("filename=\""), part[h + 4..].to_vec()));
        rest = &rest[end..];
    }
    let mut want: Vec<(String, bool, Vec<u8>)> = parts
        .iter()
        .map(|(n, v)| match v.strip_prefix('@') {
            Some(f) => (n.clone(), true, extra.iter().find(|x| x.0 == f).map(|x| file_bytes(&x.0, &x.1)).unwrap_or_default()),
            None => (n.clone(), false, v.clone().into_bytes()),
        })
        .collect();
    got.sort();
    want.sort();
    if got.len() != want.len() {
        return Err(format!("{} parts instead of {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(&want) {
        if g != w {
            return Err(format!("part {} (file: {}), {}; expected part {} (file: {})", g.0, g.1, first_diff(&g.2, &w.2), w.0, w.1));
        }
    }
    Ok(())
}
