//! Workload, topology, schedule and fault generators, one per property.
use crate::model::*;
use crate::scen::*;
use proto::*;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C25", "C26",
];

pub struct G {
    pub r: Rng,
    pub sc: Scenario,
    nreq: usize,
    /// an iteration makes this many calls more
    many: u64,
}

#[derive(Clone)]
struct ProgOpts {
    reqs: (u64, u64),
    https: u64,       // percent of requests over https
    bodies: u64,      // percent with a body
    big: u64,         // percent of bodies that are big
    extra_asserts: (u64, u64),
    state: u64,       // percent of programs that carry state between calls
    prints: u64,      // percent chance of a print after a call
    fail: u64,        // percent of programs with a script error somewhere
    branches: u64,
}
impl Default for ProgOpts {
    fn default() -> Self {
        ProgOpts { reqs: (1, 3), https: 0, bodies: 35, big: 10, extra_asserts: (0, 3), state: 60, prints: 40, fail: 0, branches: 20 }
    }
}

const WORDS: &[&str] = &["alpha", "beta", "gamma", "delta", "omega", "kappa"];

impl G {
    fn new(prop: &str, seed: u64) -> G {
        let r = Rng::new(seed ^ mix(prop.bytes().fold(7, |a, b| a * 131 + b as u64)));
        let plan = Plan {
            seed,
            fault_budget: 1 << 20,
            max_steps: 3_000_000,
            max_time: MONO_BASE + 4000 * SEC,
            fs: FsTarget { write_under: "rec/".into(), read_under: "".into(), capacity: u64::MAX },
            ..Default::default()
        };
        let sc = Scenario {
            prop: prop.into(),
            flavour: String::new(),
            seed,
            plan,
            prog: Prog::default(),
            mode: Mode::Named,
            test: "main".into(),
            threads: 1,
            number: 1,
            duration: 0,
            record: false,
            stat: false,
            frags: vec![],
            extra: vec![],
            lines: vec![],
            line_gap: 0,
            last_newline: true,
            crlf: false,
            dirs: vec![],
            pod: String::new(),
            cpu_limit: 20,
            style: 0,
            links: vec![],
            path: String::new(),
        };
        G { r, sc, nreq: 0, many: 0 }
    }
    fn rate(&mut self, k: K, p: u32) {
        if p > 0 {
            self.sc.plan.rates.push(Rate { kind: k as u8, p });
        }
    }
    /// with `percent` chance, a rate drawn log-uniformly between lo and hi (of 65536)
    fn maybe(&mut self, percent: u64, k: K, lo: u32, hi: u32) {
        if self.r.chance(percent) {
            let steps = (hi / lo.max(1)).max(1).ilog2() as u64;
            let p = (lo << self.r.below(steps + 1)).min(hi);
            self.rate(k, p);
        }
    }
    fn sched(&mut self) {
        let s = &mut self.sc.plan.sched;
        match self.r.below(10) {
            0 => {
                // run to block
                s.p_call = 0;
                s.p_atomic = 0;
            }
            1..=3 => {
                s.policy = 1;
                let d = self.r.range(1, 6);
                let span = *self.r.pick(&[300u64, 2000, 10_000, 40_000]);
                s.change = (0..d).map(|_| self.r.range(1, span)).collect();
                s.change.sort();
            }
            4..=6 => {
                s.p_call = 1 << self.r.range(8, 14);
                s.p_atomic = 1 << self.r.range(6, 12);
            }
            _ => {
                s.p_call = 1 << self.r.range(11, 15);
                s.p_atomic = 1 << self.r.range(9, 14);
            }
        }
        self.maybe(30, K::Spurious, 256, 4096);
        self.maybe(50, K::WakeOrder, 8192, 32768);
        self.maybe(50, K::SpawnOrder, 8192, 40000);
    }
    fn out_faults(&mut self) {
        self.maybe(35, K::OutShort, 256, 32768);
        self.maybe(25, K::OutEintr, 256, 16384);
    }
    fn service(&mut self) -> usize {
        let think = *self.r.pick(&[0u64, 1, 5, 30, 200]);
        let n = self.r.range(1, 4);
        let mut headers = Vec::new();
        for _ in 0..n {
            let mut h: Vec<(String, String)> = Vec::new();
            for (a, b) in [("Tag", "a"), ("Server", "sim/1.0"), ("Tag", "b c"), ("Date", "Sun, 21 Jul 2025 14:32:11 GMT"), ("Echo", "@Q:n@"), ("Empty", ""), ("Tag", "@SID@"), ("tag", "low")] {
                if self.r.chance(50) {
                    h.push((a.into(), b.into()));
                    if self.r.chance(10) {
                        h.push((a.into(), b.into()));
                    }
                }
            }
            if self.r.chance(35) {
                for _ in 0..self.r.range(1, 6) {
                    let (a, b) = *self.r.pick(&[
                        ("Set-Cookie", "a=@SID@; Path=/; HttpOnly"),
                        ("Set-Cookie", "b=\"q: w\"; Expires=Sun, 21 Jul 2025 14:32:11 GMT"),
                        ("Location", "https://other.test:8443/p?a=b:c#d"),
                        ("ETag", "W/\"33a64df5\""),
                        ("X-Blank", "two  blanks\tand a tab"),
                        ("X-Utf", "\u{e4}\u{65e5}\u{1f600}"),
                        ("X-Json", "{\"a\": [1, 2]}"),
                        ("X-Colon", ":lead: and trail:"),
                        ("X-Semi", "a; b;"),
                        ("X-Comma", "a, b ,c,"),
                        ("X-Paren", "(comment) \\ x"),
                        ("X-Long", "@FILL:9500@"),
                        ("X-Mid", "@FILL:700@"),
                        ("X.Odd_Name!", "ok"),
                        ("CONTENT-TYPE", "application/json"),
                    ]);
                    let i = self.r.below(h.len() as u64 + 1) as usize;
                    h.insert(i, (a.into(), b.into()));
                }
            }
            if self.r.chance(5) {
                for i in 0..self.r.range(20, 150) {
                    h.push((format!("X-Many-{i}"), format!("v{i}")));
                }
            }
            if self.r.chance(6) {
                for i in 0..self.r.range(4, 60) {
                    h.push(("Tag".into(), format!("r{i}")));
                }
            }
            headers.push(h);
        }
        let pool: Vec<String> = vec![
            r#"{"sid": @SID@, "n": "@Q:n@", "list": [1, 2, 3], "deep": {"a": {"b": "c"}}}"#.into(),
            r#"{"sid": @SID@, "big": "@FILL:3000@", "ok": true}"#.into(),
            r#"[@SID@, {"n": "@Q:n@"}, "x"]"#.into(),
            r#"{"sid": @SID@, "ratio": 0.25, "ok": true, "no": false, "nil": null, "half": 12.5}"#.into(),
            r#"{"sid": @SID@, "ratio": 0.75, "ok": false}"#.into(),
            r#"{"sid": @SID@, "low": -7, "temp": -0.5, "ratio": -1.25, "list": [-1, -2, [3, -4.5]], "deep": {"a": {"b": -1}}, "n": 0}"#.into(),
            r#"{"sid":@SID@,"low":-9223372036854775807,"list":[],"deep":{"a":{}},"temp":0.0,"ratio":3}"#.into(),
            r#"  [-@SID@, -1.5, {"low": -3}] "#.into(),
            "-@SID@".into(),
            "\"@SID@\"".into(),
            "ends with a line @SID@\r\n".into(),
            "\r\n".into(),
            "a\rb\r@SID@\r".into(),
            " @SID@ ".into(),
            "".into(),
            "text @SID@ for @Q:n@ end".into(),
            "@FILL:9000@".into(),
            "{\"sid\": @SID@, \"name\": \"\u{17e}lu\u{165} \u{65e5}\u{672c} \u{1f600}\"}".into(),
            "{\n  \"sid\": @SID@,\n  \"lines\": [\n    \"a\",\n    \"b\"\n  ]\n}\n".into(),
            "\u{65e5}@FILL:5000@\u{1f600}@FILL:8190@\u{e9}".into(),
            "\r\n\r\n  text @SID@ between\r\n\r\nblanks \t\n\n".into(),
            "@FILL:60000@ @SID@ @FILL:50000@".into(),
            "HTTP/1.1 200 OK\r\nSid: 1\r\nContent-Length: 3\r\n\r\nabc".into(),
            "\u{feff}{\"sid\": @SID@}".into(),
            "x\u{e9}\u{20ac}\u{1f600}".repeat(700),
            format!("{}{}", &"{\"a\": "[..self.r.below(7) as usize], "\u{65e5}\u{672c}\u{1f600}".repeat(self.r.range(1, 2500) as usize)),
            "nul \0 and \u{1} bell \u{7} @SID@ \u{7f}\u{85}".into(),
        ];
        let nb = self.r.range(1, 4);
        let mut bodies: Vec<String> = (0..nb).map(|_| self.r.pick(&pool).clone()).collect();
        if self.r.below(1000) < 4 {
            bodies.push("@FILL:700000@ @SID@ \u{e4}@FILL:650000@".into());
        }
        let spool: Vec<(u16, &str)> = vec![
            (200, "OK"),
            (201, "Created"),
            (404, "Not Found"),
            (500, "Internal Server Error"),
            (204, "No Content"),
            (302, "Found"),
            (200, ""),
            (200, "1.0|OK"),
            (418, "I'm a teapot"),
            (200, "Not  quite\tOK"),
            (299, "\u{c4}ndern: 2 \"x\" => y"),
            (599, "x"),
            (206, "HTTP/1.1 200 OK"),
            (304, "Not Modified"),
            (304, "Not \"modified\"."),
            (200, "OK!"),
            (503, "Try again later..."),
        ];
        let mut statuses: Vec<(u16, String)> = vec![(200, "OK".into())];
        for _ in 0..self.r.below(3) {
            let (a, b) = *self.r.pick(&spool);
            statuses.push((a, b.into()));
        }
        let mut framings = if self.r.chance(70) { vec![0, 1] } else { vec![0] };
        if self.r.chance(40) {
            // ways to write the head
            for _ in 0..self.r.range(1, 3) {
                framings.push(10 * self.r.range(1, 6) as u8 + self.r.below(2) as u8);
            }
            if self.r.chance(30) {
                framings.remove(0);
            }
        }
        let sv = Service {
            tls: String::new(),
            think_lo: think * MS / 2,
            think_hi: think * MS + 500_000,
            latency: *self.r.pick(&[10_000u64, 200_000, 3_000_000, 30_000_000]),
            statuses,
            headers,
            bodies,
            framings,
            vary: 40_000,
            max_segs: *self.r.pick(&[1u32, 2, 4, 12]),
            gap_hi: *self.r.pick(&[0u64, MS, 40 * MS]),
            faults: vec![],
            sndbuf: *self.r.pick(&[0usize, 0, 0, 4096, 700]),
            stall: *self.r.pick(&[50u64, 500, 4000]) * MS,
            hostile: vec![],
        };
        self.sc.plan.services.push(sv);
        self.maybe_once(K::SrvGap, 30000);
        self.sc.plan.services.len() - 1
    }
    fn maybe_once(&mut self, k: K, p: u32) {
        if !self.sc.plan.rates.iter().any(|r| r.kind == k as u8) {
            self.rate(k, p);
        }
    }
    fn ip(&mut self, v6: bool) -> String {
        let n: usize = self.sc.plan.hosts.iter().map(|h| h.addrs.len()).sum();
        let n = n + self.nreq;
        self.nreq += 1;
        if v6 {
            format!("2001:db8::{:x}", n + 16)
        } else {
            format!("10.{}.{}.{}", 1 + n / 60000, (n / 250) % 240, 1 + n % 250)
        }
    }
    fn host(&mut self, name: &str, service: usize) -> usize {
        let mut addrs = Vec::new();
        let n = if self.r.chance(15) { 2 } else { 1 };
        for _ in 0..n {
            let v6 = self.r.chance(40);
            let ip = self.ip(v6);
            addrs.push(Addr { ip, delay: self.r.range(0, 3) * MS, outcome: 0 });
        }
        let d = *self.r.pick(&[0u64, 0, 1, 15]);
        self.sc.plan.hosts.push(Host { name: name.into(), addrs, dns_delay: d * MS, dns_err: 0, service });
        self.sc.plan.hosts.len() - 1
    }
    /// Faults an exchange may meet.
    fn net_faults(&mut self, level: u64) {
        for (k, lo, hi) in [
            (K::DnsFail, 512, 6000),
            (K::ConnOutcome, 512, 6000),
            (K::SendErr, 256, 3000),
            (K::RecvErr, 256, 3000),
            (K::SockFail, 128, 2000),
            (K::SrvFault, 2048, 16384),
        ] {
            self.maybe(level, k, lo, hi);
        }
        let all: Vec<u8> = vec![1, 2, 3, 4, 5, 7, 8, 9];
        for s in self.sc.plan.services.iter_mut() {
            s.faults = all.clone();
        }
        // hangs of 127 s are for the connect check
        self.rate(K::SrvFaultPos, 65536);
    }
    fn net_noise(&mut self) {
        self.maybe(40, K::SendShort, 512, 32768);
        self.maybe(40, K::RecvShort, 512, 32768);
        self.maybe(30, K::NetLatency, 512, 16384);
        self.maybe(30, K::DnsDelay, 2048, 16384);
        self.maybe(20, K::ConnDelay, 2048, 8192);
        self.maybe(20, K::DnsOrder, 8192, 65536);
    }

    fn assert_pool(&mut self) -> (E, String, E) {
        let h = |n: &str, i: i64| E::v("headers").f(n).ix(E::I(i));
        let j = |n: &str| E::v("json").f(n);
        let cmp = |op: &str| op.to_string();
        match self.r.below(52) {
            46 => (j("low"), cmp(self.r.clone().pick(&["<", ">", "==", "<=", "!="])), E::Neg(Box::new(E::I(7)))),
            47 => (j("temp"), cmp(self.r.clone().pick(&["<", ">", "=="])), E::Neg(Box::new(E::D(0.5)))),
            48 => (j("list").ix(E::I(2)).ix(E::I(1)), cmp(self.r.clone().pick(&["<", "==", "!="])), E::Neg(Box::new(E::D(4.5)))),
            49 => (E::bin("*", j("low"), E::Neg(Box::new(E::I(1)))), cmp("=="), E::I(7)),
            50 => (E::v("json").ix(E::I(0)), cmp(self.r.clone().pick(&["<", ">"])), E::I(0)),
            51 => (E::Neg(Box::new(j("ratio"))), cmp(">"), E::D(1.0)),
            45 => (E::v("headers").ix(E::S(self.r.pick(&["X-Long", "X-Mid"]).to_string())).ix(E::I(0)), cmp("!="), E::S("short".into())),
            27 => (E::v("status"), cmp(self.r.clone().pick(&["<", ">", "<=", ">=", "!="])), E::D(*self.r.pick(&[199.5, 200.5, 200.25, 403.75]))),
            28 => (E::D(200.5), cmp(self.r.clone().pick(&["<", ">", "<=", ">=", "=="])), E::v("status")),
            29 => (E::bin("*", E::v("status"), E::D(1.5)), cmp(">"), E::D(300.25)),
            30 => (j("ratio"), cmp(self.r.clone().pick(&["<", ">", "=="])), E::D(0.25)),
            31 => (E::v("status"), cmp(self.r.clone().pick(&["==", "!="])), E::S("200".into())),
            32 => (h("Echo", 0), cmp(self.r.clone().pick(&["==", "!="])), E::I(1)),
            33 => (j("ok"), cmp(self.r.clone().pick(&["==", "!="])), E::B(self.r.chance(50))),
            34 => (j("ok"), cmp("=="), E::S("true".into())),
            35 => (E::v("version"), cmp("<"), E::S("HTTP/1.2".into())),
            36 => (E::v("reason"), cmp(self.r.clone().pick(&[">=", "<"])), E::S("O".into())),
            37 => (E::Paren(Box::new(E::bin(self.r.clone().pick(&["&", "|", "^"]), E::v("status"), E::I(200)))), cmp("=="), E::I(*self.r.pick(&[0, 200]))),
            38 => {
                let (a, b) = (E::cmp("==", E::v("status"), E::I(200)), E::cmp("==", E::v("reason"), E::S("Created".into())));
                let log = E::Log(self.r.pick(&["&&", "||"]).to_string(), Box::new(a), Box::new(b));
                (E::Paren(Box::new(log)), cmp(self.r.clone().pick(&["==", "!="])), E::B(true))
            }
            39 => (E::Not(Box::new(j("missing"))), cmp("=="), E::B(true)),
            40 => (E::bin("/", E::v("status"), E::I(100)), cmp("=="), E::I(2)),
            41 => (E::bin("%", E::v("status"), E::I(100)), cmp("<"), E::I(4)),
            42 => (E::v("status"), cmp(">"), E::Neg(Box::new(E::D(0.5)))),
            43 => (E::v("headers").f("tag").ix(E::I(0)), cmp("=="), E::S("low".into())),
            44 => (E::bin("+", E::bin("*", E::v("status"), E::I(2)), E::D(0.5)), cmp("=="), E::D(400.5)),
            0 => (E::v("status"), cmp("=="), E::I(200)),
            1 => (E::v("status"), cmp("<"), E::I(300)),
            2 => (E::v("version"), cmp("=="), E::S("HTTP/1.1".into())),
            3 => (E::v("reason"), cmp("=="), E::S("OK".into())),
            4 => (E::v("reason"), cmp("!="), E::S("Not Found".into())),
            5 => (j("sid"), cmp(">"), E::I(0)),
            6 => (E::bin("+", j("sid"), E::I(1)), cmp(">="), E::I(2)),
            7 => (E::Len(Box::new(E::v("body"))), cmp(">"), E::I(10)),
            8 => (h("Tag", 0), cmp("=="), E::S("a".into())),
            9 => (h("Tag", 1), cmp("=="), E::S("b c".into())),
            10 => (h("Server", 0), cmp("=="), E::S("sim/1.0".into())),
            11 => (j("list").ix(E::I(1)), cmp("=="), E::I(2)),
            12 => (j("deep").f("a").f("b"), cmp("=="), E::S("c".into())),
            13 => (E::I(400), cmp(">"), E::v("status")),
            14 => (E::bin("*", E::Paren(Box::new(E::bin("+", E::v("status"), E::I(1)))), E::I(2)), cmp("<="), E::I(402)),
            15 => (E::bin("-", E::v("status"), E::I(200)), cmp("=="), E::I(0)),
            16 => match self.r.below(3) {
                0 => (E::Len(Box::new(E::v("headers").f("Tag"))), cmp("=="), E::I(2)),
                1 => (E::Len(Box::new(E::v("headers").f("Tag"))), cmp("<"), E::I(self.r.range(3, 40) as i64)),
                _ => (E::v("headers").f("Tag").ix(E::I(self.r.range(3, 30) as i64)), cmp("=="), E::S(format!("r{}", self.r.range(1, 28)))),
            },
            17 => (h("Echo", 0), cmp("!="), E::S("1".into())),
            18 => (h("Missing", 0), cmp("!="), E::I(0)),
            19 => (j("n"), cmp("=="), E::S("1".into())),
            20 => (E::bin("+", E::v("version"), E::S("!".into())), cmp("!="), E::S("HTTP/1.0!".into())),
            21 => (E::Len(Box::new(E::v("headers").ix(E::S("Set-Cookie".into())))), cmp(">="), E::I(2)),
            22 => (E::v("headers").ix(E::S("Set-Cookie".into())).ix(E::I(0)), cmp("!="), E::S("none".into())),
            23 => (h("Tag", 2), cmp("=="), E::S("b c".into())),
            24 => (E::Len(Box::new(E::v("headers"))), cmp(">"), E::I(4)),
            25 => (E::v("headers").ix(E::S(self.r.pick(&["X-Blank", "X-Utf", "X-Json", "X-Colon", "ETag", "Location"]).to_string())).ix(E::I(0)), cmp("!="), E::I(0)),
            _ => (E::v("status"), cmp(self.r.clone().pick(&["==", "!=", "<", ">", "<=", ">="])), E::I(*self.r.pick(&[0, 199, 200, 201, 404]))),
        }
    }

    fn request(&mut self, name: &str, host: &str, o: &ProgOpts) -> Req {
        let https = self.r.chance(o.https);
        let has_body = self.r.chance(o.bodies);
        let method = if has_body {
            *self.r.pick(&["POST", "PUT", "PATCH"])
        } else {
            *self.r.pick(&["GET", "GET", "GET", "GET", "DELETE", "OPTIONS", "HEAD"])
        };
        let mut headers: Vec<(String, String)> = vec![("Host".into(), "{host}".into())];
        if self.r.chance(10) {
            // headers a client might be tempted to know better about
            headers[0].1 = self.r.pick(&["{host}:80", "{host}:443", "{host}:8080", "other.example", "{host}.", "{tag}"]).to_string();
        }
        if self.r.chance(10) {
            let (a, b) = *self.r.pick(&[
                ("User-Agent", "curl/8.0 ({tag}; x)"),
                ("Accept-Encoding", "gzip, deflate;q=0.5"),
                ("Authorization", "Bearer {tag}=="),
                ("Cookie", "a={tag}; b=\"c d\"; a=2"),
                ("Referer", "http://{host}/a?b=c://d#e"),
                ("host", "{host}"),
                ("If-None-Match", "W/\"{n}\""),
                ("Range", "bytes=0-{n}"),
            ]);
            let i = self.r.below(headers.len() as u64 + 1) as usize;
            headers.insert(i, (a.into(), b.into()));
        }
        if self.r.chance(50) {
            headers.push(("X-Tag".into(), "{tag}".into()));
        }
        if self.r.chance(50) {
            headers.push(("X-Last".into(), "{last}".into()));
        }
        if self.r.chance(20) {
            headers.push(("Accept".into(), "*/*".into()));
            headers.push(("X-Tag".into(), "twice {n}{n}".into()));
        }
        if self.r.chance(10) {
            headers.push(("X-Nope".into(), "{undefined_name}".into()));
        }
        if self.r.chance(15) {
            // defined later, or in some tests and iterations only
            headers.push(("X-Late".into(), "{late}".into()));
        }
        if self.r.chance(12) {
            headers.push(("X-Empty".into(), "".into()));
        }
        if self.r.chance(15) {
            headers.push(("X-Typed".into(), self.r.pick(&["{flag} {ratio} {neg}", "{ratio}{ratio}", "<{odd}>", "{odd}{n}{odd}", "{neg}-{ flag }", "{_u9_}", "{  _u9_ }{n_}{_}", "{\t_u9_   }", "{n }{ n}{9n}{n.n}{-n}{}"]).to_string()));
        }
        if self.r.below(1000) < 8 {
            for i in 0..self.r.range(40, 200) {
                headers.push((format!("X-Row-{i}"), if i % 7 == 0 { "{n}".into() } else { format!("v{i}") }));
            }
        }
        if self.r.chance(12) {
            let v = *self.r.pick(&["12:30:45", ":lead", "a,b ;c=\"d e\"", "\u{e4}\u{65e5}", "two  blanks\tand {tag}", "{n}:{n}", "{ n } {n", "}{"]);
            headers.push((self.r.pick(&["X-Odd", "x-odd", "X_Odd.!"]).to_string(), v.into()));
        }
        if self.r.chance(5) {
            let h = self.r.pick(&headers).clone();
            headers.push(h);
        }
        let mut body = Body::None;
        if has_body {
            match self.r.below(4) {
                0 => {
                    headers.push(("Content-Type".into(), "application/x-www-form-urlencoded".into()));
                    let mut f = vec![("n".to_string(), "{n}".to_string())];
                    for _ in 0..self.r.below(4) {
                        f.push((
                            self.r.pick(WORDS).to_string(),
                            self.r.pick(&["plain", "two words", "a&b=c", "{tag}", "\u{e4}\u{1f600}", "50%", "x:y:z", "{last}", "", "\"quoted\"", "@x", "a;b", "+", "'"]).to_string(),
                        ));
                    }
                    if self.r.chance(o.big) {
                        f.push(("fill".into(), fill(self.r.range(500, 30_000), self.r.next())));
                    }
                    body = Body::Form(f);
                }
                1 => {
                    // multi-line text
                    headers.push(("Content-Type".into(), "application/json".into()));
                    let mut t = "{\n  \"n\": {n},\n\n\t\"tag\": \"{tag}\",\n  \"list\": [1,\n2]".to_string();
                    if self.r.chance(25) {
                        t = format!("{}{}", self.r.pick(&["\n", "\n \n\n", "  ", ""]), t.replace(",\n", ",  \t\n"));
                    }
                    if self.r.chance(o.big) {
                        for _ in 0..self.r.range(1, 30) {
                            t.push_str(&format!(",\n  \"{}\"", fill(self.r.range(5, 900), self.r.next())));
                        }
                    }
                    t.push_str("\n}");
                    body = Body::Text(t);
                }
                _ => {
                    let mut t = self.r.pick(&["{\"n\": {n}, \"tag\": \"{tag}\"}", "plain {tag} { n } text", "constant"]).to_string();
                    if self.r.chance(o.big) {
                        t.push_str(&fill(self.r.range(500, 60_000), self.r.next()));
                    }
                    if !t.contains('{') && self.r.chance(60) {
                        headers.push(("Content-Length".into(), t.len().to_string()));
                    }
                    body = Body::Text(t);
                }
            }
        }
        headers.push(("Connection".into(), "close".into()));
        let mut asserts = vec![(E::v("headers").f("Sid").ix(E::I(0)), "!=".to_string(), E::I(0))];
        for _ in 0..self.r.range(o.extra_asserts.0, o.extra_asserts.1) {
            let a = self.assert_pool();
            asserts.push(a);
        }
        if self.r.below(1000) < 8 {
            let most = if self.r.chance(50) { 200 } else { 330 };
            for _ in 0..self.r.range(60, most) {
                let a = self.assert_pool();
                asserts.push(a);
            }
        }
        if self.r.chance(2) && !matches!(self.sc.prop.as_str(), "C17" | "C21" | "C25") && !matches!(body, Body::Form(_)) {
            // nothing but the first line and the body
            headers.clear();
        }
        let junk = if self.r.chance(8) { vec!["status".to_string()] } else { vec![] };
        Req {
            name: name.into(),
            method: method.into(),
            scheme: if https { "https" } else { "http" }.into(),
            host: host.into(),
            port: match self.r.below(50) {
                0..=8 => Some(8000 + self.r.below(100) as u16),
                9 => Some(*self.r.pick(&[80u16, 443, 1, 65535])),
                _ => None,
            },
            path: match self.r.below(8) {
                7 => {
                    let t = *self.r.pick(&["?", "//{name}", "/%20", ";v=1", "/../x", "/./", "&", "=", "/?a=1?", "%2F%2f", "~'()*!$", "/a+b", "?q=[1]|^", "/x//", "?{n}={tag}&", ","]);
                    format!("/{name}{}", t.replace("{name}", name))
                }
                5 => format!("?n={{n}}&from={name}"),
                6 => "".into(),
                4 => format!("/{name}?to={}&n={{n}}&x=a:b@c;d,e/?f", self.r.pick(&["http://other.test:81/x", "%20", "a//b", "://"])),
                0 => format!("/{name}?n={{n}}"),
                1 => format!("/{name}/{{tag}}?n={{n}}&last={{last}}"),
                2 => format!("/{name}/deep/path?tag={{tag}}&n={{n}}"),
                _ => format!("/{name}?n={{n}}&h={{host}}"),
            },
            version: if self.r.chance(20) { Some("HTTP/1.1".into()) } else if self.r.chance(8) { Some("HTTP/1.0".into()) } else { None },
            headers,
            body,
            asserts,
            junk,
            style: if self.r.chance(30) { self.r.range(1, 3) as u8 } else { 0 },
        }
    }

    /// The operations of one test that performs `reqs`.
    fn test_ops(&mut self, id: &str, reqs: &[String], o: &ProgOpts) -> Vec<Op> {
        let mut ops = Vec::new();
        let stateful = self.r.chance(o.state);
        ops.push(Op::Let("n".into(), E::bin("+", E::v("n"), E::I(1))));
        if self.r.chance(o.prints) {
            ops.push(Op::Print(format!("MARK begin {id} {{a}} {{b}}"), vec![E::v("n"), E::v("last")]));
        }
        let calls = self.r.range(reqs.len() as u64, reqs.len() as u64 + 2) + self.many;
        for c in 0..calls as usize {
            let name = if c < reqs.len() { reqs[c].clone() } else { self.r.pick(reqs).clone() };
            let var = if stateful || self.r.chance(40) { Some(format!("r{}", self.r.below(3))) } else { None };
            ops.push(Op::Call(name, var.clone()));
            if let Some(v) = var {
                let ok = E::cmp(">", E::v(&v).f("status"), E::I(0));
                let mut good = Vec::new();
                let mut bad = Vec::new();
                if stateful {
                    good.push(Op::Let("last".into(), E::v(&v).f("headers").f("Sid").ix(E::I(0))));
                    bad.push(Op::Let("last".into(), E::S("failed".into())));
                    if self.r.chance(40) {
                        good.push(Op::Let("tag".into(), E::bin("+", E::S("s".into()), E::v("last"))));
                        bad.push(Op::Let("tag".into(), E::S(self.r.pick(WORDS).to_string())));
                    }
                }
                if self.r.chance(o.prints) {
                    good.push(Op::Print(
                        format!("MARK got {id}/{c} {{n}} {{sid}} {{st}}"),
                        vec![E::v("n"), E::v(&v).f("headers").f("Sid").ix(E::I(0)), E::v(&v).f("status")],
                    ));
                    bad.push(Op::Print(format!("MARK lost {id}/{c} {{n}} {{last}}"), vec![E::v("n"), E::v("last")]));
                }
                if !good.is_empty() {
                    ops.push(Op::If(ok, good, bad));
                }
            }
            if self.r.chance(o.branches) {
                let name = self.r.pick(reqs).clone();
                let k = self.r.range(1, 3) as i64;
                let cond = E::cmp("==", E::bin("%", E::v("n"), E::I(k + 1)), E::I(0));
                ops.push(Op::If(cond, vec![Op::Call(name, None)], vec![]));
            }
        }
        if self.r.chance(35) {
            let at = self.r.range(1, ops.len() as u64) as usize;
            let late = Op::Let("late".into(), E::bin("+", E::v("tag"), E::S(format!("-{id}"))));
            ops.insert(at, if self.r.chance(50) { late } else { Op::If(E::cmp("==", E::bin("%", E::v("n"), E::I(2)), E::I(self.r.below(2) as i64)), vec![late], vec![]) });
        }
        if self.r.chance(10) {
            let at = self.r.range(1, ops.len() as u64) as usize;
            ops.insert(at, Op::Let("ratio".into(), E::bin("+", E::v("ratio"), E::D(0.25))));
            ops.insert(at, Op::Let("flag".into(), E::Not(Box::new(E::v("flag")))));
        }
        if self.r.chance(o.fail) {
            let at = self.r.range(1, ops.len() as u64) as usize;
            let k = self.r.range(1, 3) as i64;
            let err = Op::Fail(self.r.pick(&["missing_name", "missing_call()", "n + missing_two"]).to_string());
            ops.insert(at, Op::If(E::cmp(">=", E::v("n"), E::I(k)), vec![err], vec![]));
        }
        ops
    }

    fn tops(&mut self, host: &str) {
        self.sc.prog.top = vec![
            Op::Let("n".into(), E::I(0)),
            Op::Let("host".into(), E::S(host.into())),
            Op::Let("tag".into(), E::S(self.r.pick(WORDS).to_string())),
            Op::Let("last".into(), E::S("none".into())),
            Op::Let("flag".into(), E::B(self.r.chance(50))),
            Op::Let("ratio".into(), E::D(*self.r.pick(&[0.5, 2.25, 1234567.125, 0.1, 0.0000001234]))),
            Op::Let("_u9_".into(), E::S(self.r.pick(&["under", "{_u9_}", "9"]).to_string())),
            Op::Let("neg".into(), E::Neg(Box::new(E::I(*self.r.pick(&[1, 40, 9_223_372_036_854_775_807]))))),
            Op::Let("odd".into(), E::S(self.r.pick(&["", "{n}", "{tag} {odd}", "a  b", "\u{e4}\u{1f600}", "$1 \\1 %s &amp;", "x:y"]).to_string())),
        ];
    }

    /// One named test "main" over a few hosts.
    fn named(&mut self, o: &ProgOpts) {
        let hosts = self.r.range(1, 3);
        for h in 0..hosts {
            let s = self.service();
            self.host(&format!("h{h}.test"), s);
        }
        self.tops("h0.test");
        let n = self.r.range(o.reqs.0, o.reqs.1);
        let mut names = Vec::new();
        for k in 0..n {
            let name = format!("{}{}", self.r.pick(&["get", "load", "check", "post"]), k);
            let host = if self.r.chance(40) { "{host}".to_string() } else { format!("h{}.test", self.r.below(hosts)) };
            let rq = self.request(&name, &host, o);
            self.sc.prog.requests.push(rq);
            names.push(name);
        }
        if matches!(&self.sc.prop[..], "C02" | "C09" | "C14") && self.r.below(1000) < 8 {
            self.many = self.r.range(120, 300);
        }
        let ops = self.test_ops("main", &names, o);
        self.sc.prog.tests.push(Test { name: "main".into(), ops });
        if self.r.chance(30) {
            // another test that must not run
            self.sc.prog.tests.push(Test {
                name: "other".into(),
                ops: vec![Op::Print("MARK other ran".into(), vec![]), Op::Call(names[0].clone(), None)],
            });
        }
    }

    /// Some iterations of the named test make no calls at all.
    fn sparse(&mut self) {
        let k = self.r.range(2, 4) as i64;
        let rest = self.r.below(k as u64) as i64;
        let t = &mut self.sc.prog.tests[0];
        let mut tail = t.ops.split_off(1);
        if !matches!(&tail[0], Op::Print(f, _) if f.starts_with("MARK begin")) {
            tail.insert(0, Op::Print("MARK begin main {a} {b}".into(), vec![E::v("n"), E::v("last")]));
        }
        let first = tail.remove(0);
        t.ops.push(first);
        t.ops.push(Op::If(E::cmp("==", E::bin("%", E::v("n"), E::I(k)), E::I(rest)), tail, vec![]));
    }

    /// Several tests, all of them run, each with requests of its own.
    fn all_tests(&mut self, o: &ProgOpts, count: (u64, u64)) {
        self.sc.mode = Mode::All;
        let tests = self.r.range(count.0, count.1);
        self.tops("h0.test");
        for t in 0..tests {
            let s = self.service();
            self.host(&format!("h{t}.test"), s);
        }
        for t in 0..tests {
            let n = self.r.range(o.reqs.0, o.reqs.1);
            let mut names = Vec::new();
            for k in 0..n {
                let name = format!("q{t}x{k}");
                let rq = self.request(&name, &format!("h{t}.test"), o);
                self.sc.prog.requests.push(rq);
                names.push(name);
            }
            if t > 0 && self.r.chance(30) {
                // what another test calls, too
                let k = self.r.below(self.sc.prog.requests.len() as u64) as usize;
                let other = self.sc.prog.requests[k].name.clone();
                if !names.contains(&other) {
                    names.push(other);
                }
            }
            let id = format!("t{t}");
            let mut ops = vec![Op::Print(format!("MARK start {id} {{n}} {{tag}} {{last}}"), vec![E::v("n"), E::v("tag"), E::v("last")])];
            ops.extend(self.test_ops(&id, &names, o));
            if self.r.chance(40) {
                ops.push(Op::Print(format!("MARK end {id} {{n}} {{tag}} {{last}}"), vec![E::v("n"), E::v("tag"), E::v("last")]));
            }
            self.sc.prog.tests.push(Test { name: id, ops });
        }
        if self.r.chance(10) {
            // a test that calls nothing
            let mut ops = vec![Op::Print("MARK start idle {n} {tag} {last}".into(), vec![E::v("n"), E::v("tag"), E::v("last")])];
            if self.r.chance(30) {
                ops.push(Op::Fail("missing_name".into()));
            }
            let at = self.r.below(self.sc.prog.tests.len() as u64 + 1) as usize;
            self.sc.prog.tests.insert(at, Test { name: "idle".into(), ops });
        }
    }

    fn load(&mut self, t_hi: u64, per: u64) {
        if self.many > 0 {
            self.sc.threads = self.r.range(1, 2) as u32;
            self.sc.number = self.sc.threads + self.r.below(2) as u32;
            return;
        }
        let t = self.r.range(1, t_hi) as u32;
        self.sc.threads = t;
        self.sc.number = match self.r.below(6) {
            0 => self.r.below(t as u64 + 2) as u32,
            1 => t * self.r.range(1, per) as u32,
            _ => (t as u64 * self.r.range(1, per) + self.r.below(t as u64)) as u32,
        };
    }
    fn tls_on(&mut self, percent: u64) {
        // services of hosts reached over https get a valid certificate
        let pool: Vec<String> = self.sc.prog.requests.iter().filter(|r| r.scheme == "https").map(|r| r.host.clone()).collect();
        if pool.is_empty() {
            return;
        }
        let _ = percent;
        let top = match self.sc.prog.top.iter().find_map(|o| match o {
            Op::Let(n, E::S(v)) if n == "host" => Some(v.clone()),
            _ => None,
        }) {
            Some(v) => v,
            None => String::new(),
        };
        // a service is either plain or encrypted: split the hosts
        let mut moved: Vec<String> = Vec::new();
        for r in self.sc.prog.requests.iter_mut() {
            if r.scheme == "https" {
                let h = if r.host == "{host}" { top.clone() } else { r.host.clone() };
                r.host = format!("{}.tls.test", h.split('.').next().unwrap_or("h"));
                moved.push(h);
            }
        }
        moved.sort();
        moved.dedup();
        for h in moved {
            if let Some(k) = self.sc.plan.hosts.iter().position(|x| x.name == h) {
                let mut sv = self.sc.plan.services[self.sc.plan.hosts[k].service].clone();
                sv.tls = if self.r.chance(40) { "good/12".into() } else { "good".into() };
                self.sc.plan.services.push(sv);
                let s = self.sc.plan.services.len() - 1;
                let name = format!("{}.tls.test", h.split('.').next().unwrap_or("h"));
                self.host(&name, s);
            }
        }
    }
}

impl G {
    /// Some hosts are called by their address, there is nothing to resolve.
    fn literals(&mut self) {
        let hosts = self.sc.plan.hosts.len();
        for k in 0..hosts {
            let h = &self.sc.plan.hosts[k];
            if h.addrs.len() != 1 || h.addrs[0].ip.contains(':') || h.addrs[0].outcome != 0 || h.dns_err != 0 || !h.name.starts_with('h') || h.name.contains(".tls.") || !self.r.chance(60) {
                continue;
            }
            let (name, ip) = (h.name.clone(), h.addrs[0].ip.clone());
            for r in self.sc.prog.requests.iter_mut() {
                if r.host == name {
                    r.host = ip.clone();
                }
            }
            for o in self.sc.prog.top.iter_mut() {
                if let Op::Let(n, E::S(v)) = o {
                    if n == "host" && *v == name {
                        *v = ip.clone();
                    }
                }
            }
            self.sc.plan.hosts[k].name = ip;
        }
        // an exchange that fails before it connects leaves nothing to see
        self.sc.plan.rates.retain(|r| r.kind != K::SockFail as u8);
    }
}

pub fn fill(n: u64, seed: u64) -> String {
    let mut x = seed;
    (0..n)
        .map(|_| {
            x = mix(x);
            (b'a' + (x % 26) as u8) as char
        })
        .collect()
}

fn hexs(t: &str) -> String {
    crate::hist::hex(t.as_bytes())
}

/// Byte streams a broken or malicious server may send.
fn hostile_pool(r: &mut Rng) -> Vec<String> {
    let ok = "HTTP/1.1 200 OK\r\nSid: @SID@\r\nConnection: close\r\n\r\n";
    let texts: Vec<String> = vec![
        format!("{ok}Hello world!"),
        format!("{ok}!"),
        format!("{ok}a ! b"),
        format!("{ok}it works!!\n"),
        format!("{ok}@NEST:[:3000@"),
        format!("{ok}@NEST:[:60000@"),
        format!("{ok}@NEST:{{\"a\"\\c:4000@"),
        format!("{ok}@NEST:(:20000@"),
        format!("{ok}@NEST:-:20000@1"),
        format!("{ok}@NEST:!:20000@1"),
        format!("{ok}1@NEST: + 1:20000@"),
        format!("{ok}a@NEST:.b:20000@"),
        format!("{ok}a@NEST:[0]:20000@"),
        format!("{ok}@NEST:if (a) {{ :5000@"),
        format!("{ok}@NEST:let a = :20000@"),
        format!("{ok}99999999999999999999999999"),
        format!("{ok}1e999999"),
        format!("{ok}-9223372036854775808"),
        format!("{ok}9223372036854775807"),
        format!("{ok}1.2.3.4"),
        format!("{ok}1."),
        format!("{ok}\"unterminated"),
        format!("{ok}\"\\"),
        format!("{ok}'x"),
        format!("{ok}`GET http://x"),
        format!("{ok}request a`\nGET http://x\n`"),
        format!("{ok}request"),
        format!("{ok}request a"),
        format!("{ok}request a`"),
        format!("{ok}request a``["),
        format!("{ok}request a``[a"),
        format!("{ok}test"),
        format!("{ok}test a"),
        format!("{ok}test a {{"),
        format!("{ok}test {{ }}"),
        format!("{ok}let"),
        format!("{ok}let a"),
        format!("{ok}let a ="),
        format!("{ok}if"),
        format!("{ok}if ("),
        format!("{ok}if (a"),
        format!("{ok}if (a) {{"),
        format!("{ok}if (a) {{ }} else"),
        format!("{ok}if (a) {{ }} else {{"),
        format!("{ok}f("),
        format!("{ok}f(,"),
        format!("{ok}f(a,"),
        format!("{ok}a["),
        format!("{ok}a[1"),
        format!("{ok}a."),
        format!("{ok}{{"),
        format!("{ok}{{\"a\""),
        format!("{ok}{{\"a\":"),
        format!("{ok}{{\"a\":1"),
        format!("{ok}{{\"a\":1,"),
        format!("{ok}[1"),
        format!("{ok}[1,"),
        format!("{ok}[,]"),
        format!("{ok}("),
        format!("{ok}(1"),
        format!("{ok})"),
        format!("{ok}]"),
        format!("{ok}}}"),
        format!("{ok};;;;"),
        format!("{ok},"),
        format!("{ok}."),
        format!("{ok}.."),
        format!("{ok}@"),
        format!("{ok}#!/bin/sh"),
        format!("{ok}<!DOCTYPE html><html><head><title>x</title></head><body class=\"a\">Hi & bye!</body></html>"),
        format!("{ok}// comment\n"),
        format!("{ok}\u{0}\u{1}\u{2}"),
        format!("{ok}\u{feff}{{}}"),
        format!("{ok}\u{65e5}\u{672c}!\u{1f600}"),
        format!("{ok}== != <= >= << >> && || ^ | & % / * - + < > ="),
        format!("{ok}a == == b"),
        format!("{ok}a =! b"),
        format!("{ok}{{\"n\": -9223372036854775808, \"m\": 0, \"z\": 9223372036854775807}}"),
        format!("{ok}{{\"n\": -9223372036854775807, \"m\": -1, \"z\": 1}}"),
        format!("{ok}{{\"n\": 1, \"m\": 0, \"z\": 64}}"),
        format!("{ok}{{\"n\": 9223372036854775807, \"m\": 1, \"z\": 2}}"),
        format!("{ok}{{\"n\": \"text\", \"m\": [1], \"z\": {{}}}}"),
        format!("{ok}{{\"n\": 3, \"m\": 1.5, \"z\": 4611686018427387904}}"),
        "\r\n\r\n".into(),
        "\n".into(),
        ":\r\n:\r\n\r\n".into(),
        "HTTP/1.1\r\n\r\n".into(),
        "HTTP/1.1 abc def\r\n\r\n".into(),
        "HTTP/1.1 99999 big\r\nContent-Length: 2\r\n\r\nab".into(),
        "HTTP/1.1 -1 neg\r\nContent-Length: 2\r\n\r\nab".into(),
        "HTTP/9.9 200 OK\r\nContent-Length: -5\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nContent-Length:\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nab".into(),
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nab".into(),
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\nab\r\n0\r\n\r\n".into(),
        "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n".into(),
        "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".into(),
        "HTTP/1.1 200 OK\nSid: 5\n\nbare newlines".into(),
        "HTTP/1.1 200 OK\r\nNo colon here\r\n: empty\r\nA:\r\n folded\r\n\r\nx".into(),
        "SSH-2.0-OpenSSH_9.6\r\n".into(),
        "@FILL:70000@".into(),
        "HTTP/1.1 200 @FILL:70000@".into(),
        "HTTP/1.1 200 OK\r\nX: @FILL:200000@\r\n\r\n".into(),
        "HTTP/1.1 200 OK\r\n@NEST:A\\c b\r\n:3000@\r\n".into(),
        "HTTP/1.1 200 OK\r\nX: y\r\n @FILL:5@".into(),
    ];
    let mut v: Vec<String> = Vec::new();
    for _ in 0..3 {
        let t = r.pick(&texts).replace("\\c", ":");
        v.push(hexs(&t));
    }
    // a structured response with random damage
    let mut bytes = b"HTTP/1.1 200 OK\r\nSid: 7\r\nContent-Type: application/json\r\nConnection: close\r\n\r\n{\"a\": [1, 2.5, true, null, \"x\"], \"b\": {\"c\": -1}}".to_vec();
    for _ in 0..r.range(1, 8) {
        let i = r.below(bytes.len() as u64) as usize;
        match r.below(5) {
            0 => bytes[i] = r.next() as u8,
            1 => {
                bytes.remove(i);
            }
            2 => bytes.insert(i, *r.pick(b"!{}[]()\"`.,;:=-<>\n\r 019ae\\")),
            3 => {
                let k = r.below(bytes.len() as u64) as usize;
                bytes.swap(i, k)
            }
            _ => bytes.truncate(i.max(1)),
        }
        if bytes.is_empty() {
            bytes.push(b'x');
        }
    }
    v.push(format!("raw:{}", crate::hist::hex(&bytes)));
    // a body of random language tokens behind a good head
    let toks: &[&str] = &[
        "let", "if", "else", "test", "request", "true", "false", "null", "a", "b1", "1", "2.5", "\"s\"", "`", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "!", "-", "+",
        "*", "/", "%", "^", "|", "&", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "=", "\n", " ", "\u{e9}", "'", "\\", "$", "@",
    ];
    let mut t = ok.to_string();
    for _ in 0..r.range(1, 40) {
        t.push_str(r.pick(toks));
        if r.chance(50) {
            t.push(' ');
        }
    }
    v.push(format!("raw:{}", hexs(&t.replace("@SID@", "7"))));
    // text that is not text
    let mut bytes = b"HTTP/1.1 200 OK\r\nSid: 7\r\nConnection: close\r\nContent-Length: 6\r\n\r\nab".to_vec();
    bytes.extend_from_slice(match r.below(4) {
        0 => &[0xff, 0xfe, 0x41, 0x42],
        1 => &[0xc3, 0x28, 0x41, 0x42],
        2 => &[0x41, 0x42, 0x43, 0xe2],
        _ => &[0xed, 0xa0, 0x80, 0x41],
    });
    v.push(format!("raw:{}", crate::hist::hex(&bytes)));
    v
}

fn std_named(g: &mut G, o: &ProgOpts, t_hi: u64, per: u64) {
    g.named(o);
    if g.r.chance(12) {
        g.sparse();
    }
    g.load(t_hi, per);
    if matches!(g.sc.prop.as_str(), "C01" | "C02" | "C06" | "C09" | "C14") {
        match g.r.below(100) {
            0..=2 => {
                // a crowd of workers
                g.sc.threads = if g.r.chance(10) { g.r.range(61, 300) } else { g.r.range(17, 60) } as u32;
                g.sc.number = g.sc.threads + g.r.below(g.sc.threads as u64) as u32;
            }
            3 => {
                // many iterations
                g.sc.threads = g.r.range(1, 3) as u32;
                g.sc.number = g.r.range(257, 600) as u32;
            }
            _ => {}
        }
        if g.sc.number > 60 || g.sc.threads > 16 {
            g.sc.plan.max_time += 1_000_000 * SEC;
            for s in g.sc.plan.services.iter_mut() {
                s.bodies.retain(|b| !b.contains("@FILL"));
                if s.bodies.is_empty() {
                    s.bodies.push("{\"sid\": @SID@}".into());
                }
            }
        }
    }
    g.tls_on(o.https);
    g.sched();
    g.sc.record = g.r.chance(25);
    g.sc.stat = g.r.chance(25);
}

pub fn gen(prop: &str, seed: u64) -> Scenario {
    let mut g = G::new(prop, seed);
    let g = &mut g;
    match prop {
        "C01" => {
            let o = ProgOpts { reqs: (1, 2), extra_asserts: (0, 1), ..Default::default() };
            std_named(g, &o, 9, 6);
            g.net_noise();
            g.net_faults(25);
            if g.r.chance(10) {
                g.sc.number = g.r.range(30, 120) as u32;
            }
            if g.r.below(1000) < 2 {
                // more iterations than fit into two bytes, nothing but counting in each
                g.sc.threads = g.r.range(1, 2) as u32;
                g.sc.number = 65_536 * g.sc.threads + g.r.below(1500) as u32;
                let k = g.sc.prog.tests.iter().position(|t| t.name == g.sc.test).unwrap_or(0);
                g.sc.prog.tests[k].ops = vec![
                    Op::Let("n".into(), E::bin("+", E::v("n"), E::I(1))),
                    Op::Print("MARK begin main {a}".into(), vec![E::v("n")]),
                ];
                g.sc.prog.top.retain(|o| !matches!(o, Op::Call(..)));
                g.sc.stat = false;
                g.sc.plan.max_steps = 60_000_000;
                g.sc.plan.rates.clear();
                g.sc.plan.sched = Sched { p_call: 0, p_atomic: 0, ..Default::default() };
                g.sc.cpu_limit = 60;
            }
        }
        "C02" => {
            let o = ProgOpts { extra_asserts: (0, 5), fail: 35, ..Default::default() };
            if g.r.chance(25) {
                g.all_tests(&o, (2, 5));
                g.sched();
            } else {
                std_named(g, &o, 6, 4);
            }
            g.net_noise();
            g.net_faults(25);
            g.maybe(60, K::OutShort, 1024, 40000);
            g.maybe(40, K::OutEintr, 512, 16384);
        }
        "C03" => {
            let o = ProgOpts { extra_asserts: (1, 6), https: if g.r.chance(15) { 60 } else { 0 }, ..Default::default() };
            std_named(g, &o, 4, 4);
            g.net_noise();
            g.net_faults(45);
            g.maybe(40, K::TlsFault, 2048, 16384);
            if g.r.chance(60) {
                let k = g.r.range(4096, 30000) as u32;
                g.sc.plan.rates.retain(|r| r.kind != K::SrvFault as u8);
                g.rate(K::SrvFault, k);
            }
        }
        "C04" => {
            let o = ProgOpts { extra_asserts: (2, 6), https: if g.r.chance(25) { 60 } else { 0 }, prints: 80, state: 80, ..Default::default() };
            if g.r.chance(15) {
                g.all_tests(&o, (2, 5));
                g.tls_on(o.https);
                g.sched();
                g.sc.record = g.r.chance(50);
            } else {
                std_named(g, &o, 5, 4);
                g.sc.record = g.r.chance(60);
            }
            g.net_noise();
            g.maybe(80, K::RecvShort, 4096, 60000);
            g.net_faults(12);
            for s in g.sc.plan.services.iter_mut() {
                s.max_segs = *g.r.pick(&[1, 3, 10, 30]);
                s.faults.push(6);
                // text that is not text, and framing surprises
                s.hostile = vec![
                    format!("raw:{}", crate::hist::hex(b"HTTP/1.1 200 OK\r\nSid: 7\r\nConnection: close\r\nContent-Length: 6\r\n\r\nab\xff\xfeAB")),
                    format!("raw:{}", crate::hist::hex(b"HTTP/1.1 200 OK\r\nSid: 7\r\nConnection: close\r\n\r\nab\xe2\x82")),
                ];
            }
        }
        "C05" => {
            let o = ProgOpts { bodies: 75, big: 45, https: if g.r.chance(25) { 60 } else { 0 }, ..Default::default() };
            std_named(g, &o, 5, 4);
            g.net_noise();
            g.maybe(70, K::SendShort, 2048, 50000);
            for s in g.sc.plan.services.iter_mut() {
                s.sndbuf = *g.r.pick(&[0, 200, 1000, 4096, 8192, 20000]);
            }
            g.net_faults(20);
        }
        "C06" => {
            let o = ProgOpts { state: 100, prints: 70, fail: 10, reqs: (1, 3), ..Default::default() };
            if g.r.chance(30) {
                g.all_tests(&o, (2, 6));
                g.sched();
                g.sc.record = g.r.chance(40);
            } else {
                std_named(g, &o, 8, 4);
                g.sc.threads = g.sc.threads.max(2);
                g.sc.number = g.sc.number.max(g.sc.threads);
                g.sc.record = g.r.chance(40);
            }
            if g.r.chance(25) {
                // the top-level script makes a call itself
                let rq = g.sc.prog.requests[0].clone();
                let mut rq = rq;
                rq.name = "login".into();
                if rq.host == "{host}" {
                    rq.host = "h0.test".into();
                }
                g.sc.prog.requests.push(rq);
                g.sc.prog.top.push(Op::Call("login".into(), Some("session".into())));
                g.sc.prog.top.push(Op::If(
                    E::cmp(">", E::v("session").f("status"), E::I(0)),
                    vec![Op::Let("last".into(), E::v("session").f("headers").f("Sid").ix(E::I(0)))],
                    vec![],
                ));
            }
            g.net_noise();
            g.net_faults(15);
        }
        "C07" => connect(g),
        "C08" => {
            let o = ProgOpts { reqs: (1, 3), https: if g.r.chance(25) { 60 } else { 0 }, extra_asserts: (0, 1), big: 25, ..Default::default() };
            std_named(g, &o, 4, 4);
            g.sc.record = true;
            g.net_noise();
            g.net_faults(8);
            for s in g.sc.plan.services.iter_mut() {
                s.think_lo = *g.r.pick(&[0u64, 1, 10, 300]) * MS;
                s.think_hi = s.think_lo + *g.r.pick(&[1u64, 50, 700]) * MS;
                s.gap_hi = *g.r.pick(&[0u64, 10, 300]) * MS;
                s.latency = *g.r.pick(&[100_000u64, 5_000_000, 40_000_000]);
                s.max_segs = *g.r.pick(&[1u32, 4, 8]);
            }
            for h in g.sc.plan.hosts.iter_mut() {
                h.dns_delay = *g.r.pick(&[0u64, 3, 60, 900]) * MS;
                for a in h.addrs.iter_mut() {
                    a.delay = *g.r.pick(&[0u64, 2, 40, 150]) * MS;
                }
            }
            if g.r.chance(60) {
                for _ in 0..g.r.range(1, 4) {
                    let at = g.r.below(4000) * MS;
                    let d = match g.r.below(5) {
                        0 => -(g.r.range(1, 30) as i64) * SEC as i64,
                        1 => g.r.range(1, 30) as i64 * SEC as i64,
                        2 => -(g.r.range(1, 3000) as i64) * MS as i64,
                        3 => g.r.range(1, 3000) as i64 * MS as i64,
                        _ => -(86_400 * 365 * 60) * SEC as i64, // before the epoch
                    };
                    g.sc.plan.wall_jumps.push((at, d));
                }
                g.sc.plan.wall_jumps.sort();
            }
        }
        "C09" => {
            let o = ProgOpts { extra_asserts: (0, 4), fail: 10, https: if g.r.chance(10) { 50 } else { 0 }, ..Default::default() };
            if g.r.chance(25) {
                g.all_tests(&o, (1, 5));
                g.tls_on(o.https);
                g.sched();
            } else {
                std_named(g, &o, 5, 6);
                if g.r.chance(12) {
                    g.sc.number = g.r.range(60, 100) as u32;
                }
            }
            g.sc.record = true;
            if g.r.chance(20) {
                g.sc.pod = "pod7-".into();
            }
            g.stale();
            g.net_noise();
            g.net_faults(20);
            g.maybe(60, K::FileShortWrite, 2048, 50000);
            g.maybe(40, K::FileEintr, 1024, 20000);
        }
        "C10" => {
            let o = ProgOpts { extra_asserts: (0, 2), ..Default::default() };
            if g.r.chance(15) {
                g.all_tests(&o, (1, 4));
                g.sched();
            } else {
                std_named(g, &o, 4, 8);
            }
            g.sc.record = true;
            g.net_faults(15);
            g.maybe(50, K::FileShortWrite, 2048, 40000);
            g.maybe(30, K::FileEintr, 1024, 10000);
            if g.r.chance(35) {
                // inside a write to a recording
                let p = *g.r.pick(&[30000u32, 12000, 6000, 2000]);
                g.rate(K::KillWrite, p);
            } else {
                g.sc.plan.kill_step = match g.r.below(4) {
                    0 => g.r.range(200, 2000),
                    1 => g.r.range(1000, 5000),
                    2 => g.r.range(2000, 12_000),
                    _ => g.r.range(2000, 30_000),
                };
            }
        }
        "C11" => {
            let o = ProgOpts { extra_asserts: (0, 2), ..Default::default() };
            if g.r.chance(15) {
                g.all_tests(&o, (1, 4));
                g.sched();
            } else {
                std_named(g, &o, 4, 6);
            }
            g.sc.record = true;
            g.stale();
            g.net_faults(12);
            g.maybe(30, K::FileShortWrite, 2048, 30000);
            if g.r.chance(12) {
                // of some worker the recording cannot even be created
                let p = *g.r.pick(&[30000u32, 12000, 5000]);
                g.rate(K::FileOpenErr, p);
            }
            match g.r.below(3) {
                0 => g.sc.plan.fs.capacity = g.r.range(0, 9000),
                1 => {
                    let p = g.r.range(2000, 20000) as u32;
                    g.rate(K::FileWriteErr, p)
                }
                _ => {
                    g.sc.plan.fs.capacity = g.r.range(1500, 30000);
                    g.rate(K::FileWriteErr, 2000);
                }
            }
        }
        "C12" => {
            let o = ProgOpts { reqs: (1, 2), extra_asserts: (0, 1), fail: 0, branches: 10, ..Default::default() };
            g.named(&o);
            g.sc.threads = g.r.range(1, 5) as u32;
            g.sc.duration = match g.r.below(20) {
                0..=2 => 60,
                3 => 120,
                4 => 3600,
                _ => g.r.range(1, 4),
            };
            g.sched();
            g.sc.record = g.r.chance(50);
            g.sc.stat = g.r.chance(50);
            slow_services(g);
            let brisk = g.sc.duration >= 60 && g.r.chance(12);
            if brisk {
                // iterations by the thousand
                g.sc.threads = 1;
                g.sc.duration = 60;
                g.sc.plan.max_time += 4 * g.sc.duration * SEC;
                g.sc.plan.max_steps = 60_000_000;
                for r in g.sc.prog.requests.iter_mut() {
                    r.headers.retain(|h| !h.0.starts_with("X-Row"));
                }
                for s in g.sc.plan.services.iter_mut() {
                    s.think_lo = 25 * MS;
                    s.think_hi = 30 * MS;
                    s.max_segs = 1;
                    s.bodies.retain(|b| b.len() < 200);
                    if s.bodies.is_empty() {
                        s.bodies.push("{}".into());
                    }
                }
            } else if g.sc.duration >= 60 {
                // a few iterations are enough
                for s in g.sc.plan.services.iter_mut() {
                    s.think_lo = g.sc.duration * SEC / *g.r.pick(&[10u64, 20, 40]);
                    s.think_hi = s.think_lo + *g.r.pick(&[1u64, 500, 3000]) * MS;
                }
                g.sc.plan.max_time += 4 * g.sc.duration * SEC;
            }
            g.net_faults(15);
            g.maybe(15, K::SleepEintr, 1, 1);
            if g.r.chance(30) {
                let at = g.r.below(3000) * MS;
                let d = if g.r.chance(50) { 3600 } else { -3600 } * SEC as i64;
                g.sc.plan.wall_jumps.push((at, d));
            }
        }
        "C13" => {
            let o = ProgOpts { reqs: (1, 2), extra_asserts: (0, 1), fail: 0, branches: 10, ..Default::default() };
            g.named(&o);
            g.sc.threads = g.r.range(1, 5) as u32;
            g.sched();
            if g.r.chance(40) {
                g.sc.duration = g.r.range(20, 60);
                g.sc.number = 1;
            } else {
                g.sc.number = g.sc.threads * g.r.range(10, 60) as u32;
            }
            g.sc.record = g.r.chance(50);
            g.sc.stat = g.r.chance(60);
            slow_services(g);
            g.net_faults(15);
            g.rate(K::SigThread, 32768);
            let n = g.r.range(1, 3);
            if g.r.chance(40) {
                // around the start of the run
                for _ in 0..n {
                    let s = g.r.range(600, 6000);
                    g.sc.plan.sigint_steps.push(s);
                }
                g.sc.plan.sigint_steps.sort();
            } else {
                for _ in 0..n {
                    let t = g.r.below(2500) * MS;
                    g.sc.plan.sigint_times.push(t);
                }
                g.sc.plan.sigint_times.sort();
            }
            if g.sc.duration > 0 {
                // so that the run ends soon even if an early signal is missed
                g.sc.plan.sigint_times.push(3000 * MS);
            }
        }
        "C14" => {
            let o = ProgOpts { extra_asserts: (0, 1), fail: 20, reqs: (1, 4), ..Default::default() };
            if g.r.chance(30) {
                g.all_tests(&o, (1, 5));
                g.sched();
                if g.r.chance(40) {
                    // the same request from several tests
                    let names: Vec<String> = g.sc.prog.requests.iter().map(|r| r.name.clone()).collect();
                    let pick = names[0].clone();
                    for t in g.sc.prog.tests.iter_mut() {
                        t.ops.push(Op::Call(pick.clone(), None));
                    }
                }
            } else {
                std_named(g, &o, 8, 5);
            }
            g.sc.stat = true;
            g.sc.record = g.r.chance(20);
            g.net_noise();
            g.net_faults(20);
            for s in g.sc.plan.services.iter_mut() {
                s.think_lo = *g.r.pick(&[0u64, 1, 10, 300]) * MS;
                s.think_hi = s.think_lo + *g.r.pick(&[1u64, 50, 2000]) * MS;
            }
            if g.r.chance(25) && g.sc.mode == Mode::Named {
                let t = g.r.below(1500) * MS;
                g.sc.plan.sigint_times.push(t);
            }
        }
        "C15" => tls(g),
        "C16" => hostile(g),
        "C17" => progress(g),
        "C18" => repl(g),
        "C19" => sources(g),
        "C20" => {
            let o = ProgOpts { extra_asserts: (0, 2), fail: 35, reqs: (1, 3), prints: 60, ..Default::default() };
            let count = if g.r.chance(4) { (17, 50) } else { (1, 9) };
            g.all_tests(&o, count);
            g.sched();
            if g.r.chance(25) {
                // tests that share requests
                let names: Vec<String> = g.sc.prog.requests.iter().map(|r| r.name.clone()).collect();
                for t in 0..g.sc.prog.tests.len() {
                    if g.r.chance(60) {
                        let name = g.r.pick(&names).clone();
                        g.sc.prog.tests[t].ops.push(Op::Call(name, None));
                    }
                }
            }
            g.sc.record = g.r.chance(50);
            g.sc.stat = g.r.chance(20);
            g.net_noise();
            g.net_faults(30);
            let stalls = match g.r.below(100) {
                0..=39 => 1,
                40..=54 => g.r.range(2, g.sc.plan.services.len().max(2) as u64),
                _ => 0,
            };
            for _ in 0..stalls {
                // servers that stall for minutes
                let k = g.r.below(g.sc.plan.services.len() as u64) as usize;
                let s = &mut g.sc.plan.services[k];
                s.think_lo = 300 * SEC;
                s.think_hi = 301 * SEC;
            }
        }
        "C21" => uploads(g),
        "C25" => held(g),
        "C26" => live(g),
        _ => {}
    }
    if g.many > 0 {
        g.sc.threads = g.sc.threads.min(2);
        g.sc.number = g.sc.number.min(g.sc.threads * 2);
        g.sc.duration = 0;
    }
    if matches!(prop, "C01" | "C02" | "C06" | "C09" | "C12" | "C13" | "C14") {
        // threads that begin late
        g.maybe(25, K::SpawnDelay, 8192, 40000);
    }
    if g.many > 0 || g.sc.duration > 0 || g.sc.number > 6 || g.sc.prog.tests.len() > 3 {
        // what the log of a run can hold
        for s in g.sc.plan.services.iter_mut() {
            s.bodies.retain(|b| !b.contains("@FILL:700000@"));
        }
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C09" | "C10" | "C14" | "C16" | "C20" | "C21" | "C26") && g.r.chance(6) {
        g.literals();
    }
    if matches!(prop, "C03" | "C05" | "C21") && g.r.chance(8) {
        // answers before it has read the request, which it reads slowly, and closes
        let k = g.r.below(g.sc.plan.services.len() as u64) as usize;
        let s = &mut g.sc.plan.services[k];
        s.sndbuf = *g.r.pick(&[200usize, 700, 4096]);
        s.latency = *g.r.pick(&[20u64, 90]) * MS;
        s.think_lo = 0;
        s.think_hi = 0;
        s.faults = vec![8];
        g.rate(K::SrvFault, 30000);
    }
    g.out_tail();
    if !matches!(prop, "C08" | "C12" | "C15" | "C18" | "C19") && g.sc.prog.requests.iter().all(|r| r.scheme != "https") && g.r.chance(8) {
        // the wall clock is set while the run goes on
        let at = g.r.below(1500) * MS;
        let d = *g.r.pick(&[3600i64, -3600, 86_400 * 400, -86_400 * 400, 1]) * SEC as i64;
        g.sc.plan.wall_jumps.push((at, d));
    }
    if g.r.chance(40) {
        let mut style = g.r.next() as u8 & 63;
        if prop == "C19" || !g.sc.frags.is_empty() || g.sc.extra.iter().any(|f| f.0.ends_with(".fan")) {
            style &= !4;
        }
        g.sc.style = style;
    }
    g.sc.clone()
}

impl G {
    /// a recording of an earlier run is there
    fn stale(&mut self) {
        if self.r.chance(15) {
            let n = self.r.range(1, 60_000);
            let text = format!("Obj\u{1}{}", fill(n, self.r.next()));
            self.sc.extra.push((format!("rec/{}000000", self.sc.pod), text));
        }
    }
    fn out_tail(&mut self) {
        let quiet = matches!(self.sc.prop.as_str(), "C02" | "C17" | "C07" | "C12" | "C13" | "C08");
        if !quiet && self.r.chance(20) {
            self.out_faults();
        }
    }
}

fn slow_services(g: &mut G) {
    for s in g.sc.plan.services.iter_mut() {
        s.think_lo = *g.r.pick(&[30u64, 80, 150]) * MS;
        s.think_hi = s.think_lo + *g.r.pick(&[5u64, 100, 600]) * MS;
        s.max_segs = s.max_segs.min(4);
    }
    for h in g.sc.plan.hosts.iter_mut() {
        h.dns_delay = 10 * MS;
        for a in h.addrs.iter_mut() {
            a.delay = 5 * MS;
        }
    }
}

/// Connections, files, threads and memory that must be given back.
fn held(g: &mut G) {
    match g.r.below(10) {
        0..=2 => connect(g),
        3..=4 => uploads(g),
        5..=7 => {
            let o = ProgOpts { extra_asserts: (0, 2), https: if g.r.chance(40) { 60 } else { 0 }, bodies: 50, fail: 15, ..Default::default() };
            if g.r.chance(25) {
                g.all_tests(&o, (1, 5));
                g.tls_on(o.https);
                g.sched();
                g.sc.record = g.r.chance(50);
                g.sc.stat = g.r.chance(50);
            } else {
                std_named(g, &o, 5, 5);
            }
            g.net_noise();
            g.net_faults(40);
            g.maybe(30, K::TlsFault, 2048, 16384);
        }
        _ => {
            // many exchanges, each with much to keep
            g.sc.flavour = "memory".into();
            let o = ProgOpts { reqs: (1, 2), extra_asserts: (0, 1), bodies: 20, ..Default::default() };
            g.named(&o);
            g.many = 0;
            g.sc.threads = g.r.range(1, 3) as u32;
            g.sc.number = g.sc.threads * 25 + g.r.range(40, 90) as u32;
            g.tls_on(0);
            g.sched();
            g.sc.record = g.r.chance(50);
            g.sc.stat = g.r.chance(50);
            for s in g.sc.plan.services.iter_mut() {
                s.bodies = vec!["{\"sid\": @SID@, \"big\": \"@FILL:50000@\"}".into(), "@SID@ @FILL:60000@".into()];
                s.think_lo = s.think_lo.max(2 * MS);
                s.think_hi = s.think_hi.max(s.think_lo + 5 * MS);
                s.max_segs = s.max_segs.min(3);
            }
            g.sc.plan.max_time += 1_000_000 * SEC;
            g.maybe(20, K::SrvFault, 512, 4096);
        }
    }
    g.sc.plan.rates.retain(|r| r.kind != K::Stall as u8);
}

/// Reports are there when the iteration is over.
fn live(g: &mut G) {
    let o = ProgOpts { extra_asserts: (0, 4), fail: 20, https: if g.r.chance(10) { 50 } else { 0 }, ..Default::default() };
    if g.r.chance(30) {
        g.all_tests(&o, (2, 6));
        g.tls_on(o.https);
        g.sched();
        g.sc.record = g.r.chance(25);
        g.sc.stat = g.r.chance(25);
    } else {
        std_named(g, &o, 5, 6);
    }
    g.net_noise();
    g.net_faults(20);
    g.maybe(40, K::OutShort, 1024, 40000);
    g.maybe(30, K::OutEintr, 512, 16384);
    if g.r.chance(20) {
        // one of the servers stalls
        let k = g.r.below(g.sc.plan.services.len() as u64) as usize;
        g.sc.plan.services[k].think_lo = 100 * SEC;
        g.sc.plan.services[k].think_hi = 101 * SEC;
    }
    if g.r.chance(45) {
        g.sc.plan.kill_step = match g.r.below(4) {
            0 => g.r.range(400, 2500),
            1 => g.r.range(1000, 5000),
            2 => g.r.range(2000, 12_000),
            _ => g.r.range(2000, 30_000),
        };
    }
}

fn connect(g: &mut G) {
    g.sc.flavour = "connect".into();
    let o = ProgOpts { reqs: (1, 2), bodies: 10, extra_asserts: (0, 1), ..Default::default() };
    g.named(&o);
    g.sc.threads = g.r.range(1, 3) as u32;
    g.sc.number = g.sc.threads * g.r.range(1, 3) as u32;
    g.sched();
    g.sc.plan.hosts.clear();
    let services = g.sc.plan.services.len();
    for k in 0..3 {
        let n = if g.r.chance(8) { g.r.range(7, 16) } else { g.r.range(1, 6) };
        let mut addrs = Vec::new();
        let mix6 = g.r.below(101);
        let bad = *g.r.pick(&[0u64, 30, 60, 90, 100]);
        for _ in 0..n {
            let v6 = g.r.chance(mix6);
            let ip = g.ip(v6);
            let outcome = if g.r.chance(bad) { g.r.range(1, 3) as u8 } else { 0 };
            let delay = *g.r.pick(&[0u64, 1, 20, 100, 150, 190, 210, 250, 399, 401, 450, 600, 1500]) * MS + g.r.below(3) * 333_000;
            addrs.push(Addr { ip, delay, outcome });
        }
        g.sc.plan.hosts.push(Host {
            name: format!("h{k}.test"),
            addrs,
            dns_delay: *g.r.pick(&[0u64, 10, 300]) * MS,
            dns_err: 0,
            service: k % services,
        });
    }
    for s in g.sc.plan.services.iter_mut() {
        s.faults.clear();
        s.sndbuf = 0;
    }
    g.maybe(30, K::DnsOrder, 16384, 65536);
    g.maybe(10, K::DnsFail, 2048, 8192);
    g.maybe(30, K::ConnOutcome, 2048, 16384);
    g.maybe(20, K::SrvFault, 2048, 8192);
    if g.r.chance(30) {
        for s in g.sc.plan.services.iter_mut() {
            s.faults = vec![9, 1, 2];
        }
    }
}

fn tls(g: &mut G) {
    g.sc.flavour = "tls".into();
    let o = ProgOpts { reqs: (1, 3), extra_asserts: (0, 2), big: 30, https: 100, ..Default::default() };
    g.named(&o);
    let t = g.r.range(1, 3);
    g.sc.threads = t as u32;
    g.sc.number = (t * g.r.range(1, 2)) as u32;
    // each request gets a host of its own with its own certificate
    g.sc.plan.hosts.clear();
    let base = g.sc.plan.services[0].clone();
    g.sc.plan.services.clear();
    let n = g.sc.prog.requests.len();
    for k in 0..n {
        let kind = *g.r.pick(&[
            "good", "good", "good", "good/12", "good/12", "wrongname", "expired", "notyet", "untrusted", "selfsigned", "plaintext", "garbage", "expired/12", "untrusted/12",
        ]);
        let mut sv = base.clone();
        sv.tls = kind.into();
        sv.sndbuf = *g.r.pick(&[0usize, 0, 300, 2000, 8192]);
        sv.max_segs = *g.r.pick(&[1u32, 3, 12]);
        g.sc.plan.services.push(sv);
        let name = match g.r.below(8) {
            0 => "secure.test".to_string(),
            1 => "secure2.test".to_string(),
            // not covered by any certificate
            2 if kind.starts_with("good") => format!("h{k}.elsewhere.test"),
            3 if kind.starts_with("good") => format!("a.h{k}.tls.test"),
            // an address; the certificates are for the first one
            4 if g.r.chance(40) => g.r.pick(&["10.9.0.1", "10.9.0.1", "10.9.0.2"]).to_string(),
            _ => format!("h{k}.tls.test"),
        };
        let name = if g.sc.plan.hosts.iter().any(|h| h.name == name) { format!("h{k}.tls.test") } else { name };
        let at = g.host(&name, k);
        if name.starts_with("10.") {
            let h = &mut g.sc.plan.hosts[at];
            h.addrs.truncate(1);
            h.addrs[0].ip = name.clone();
        }
        let r = &mut g.sc.prog.requests[k];
        r.scheme = "https".into();
        r.host = name;
        if g.r.chance(25) {
            r.port = Some(*g.r.pick(&[80u16, 443, 8080, 8443, 8000, 1, 65535]));
        }
        if k > 0 && g.r.chance(8) {
            r.host = g.r.pick(&["no!name.test", "bad..name.test"]).to_string();
            g.sc.plan.hosts[k].name = r.host.clone();
            g.sc.plan.services[k].tls = "plaintext".into();
        }
    }
    g.sched();
    g.net_noise();
    g.maybe(40, K::SendShort, 2048, 50000);
    g.maybe(40, K::RecvShort, 2048, 50000);
    g.maybe(40, K::TlsFault, 4096, 30000);
    g.maybe(25, K::SendErr, 256, 3000);
    g.maybe(25, K::RecvErr, 256, 3000);
    if g.r.chance(30) {
        g.rate(K::SrvFault, 12000);
        g.rate(K::SrvFaultPos, 65536);
        for s in g.sc.plan.services.iter_mut() {
            s.faults = vec![1, 2, 3, 4, 5, 7, 8, 9, 11];
        }
    }
    if g.r.chance(40) {
        // the clock decides about validity
        let limit = *g.r.pick(&[1_577_836_800i64, 1_704_067_200, 1_893_456_000, 2_366_841_600]);
        let day = 86_400i64;
        let from = match g.r.below(4) {
            0 => limit + *g.r.pick(&[-day * 400, -day, -3600, 3600, day, day * 400]),
            _ => limit - 8 + g.r.below(16) as i64,
        };
        // (the trusted roots are valid from 2015 to 2099)
        let from = from.max(1_451_606_400);
        g.sc.plan.wall_offset = (from - (WALL_BASE / SEC) as i64) * SEC as i64;
        if g.r.chance(50) {
            let at = g.r.below(4000) * MS;
            let d = *g.r.pick(&[-day * 2, -3600, -20, 20, 3600, day * 2, day * 365 * 3, day * 365 * 20]);
            let d = if from + d < 1_451_606_400 { 3600 } else { d };
            g.sc.plan.wall_jumps.push((at, d * SEC as i64));
        }
        if g.r.chance(70) {
            // so that the limit is passed on the way
            g.sc.number = g.sc.threads * g.r.range(2, 8) as u32;
            for s in g.sc.plan.services.iter_mut() {
                s.think_lo = *g.r.pick(&[0u64, 100, 700]) * MS;
                s.think_hi = s.think_lo + *g.r.pick(&[1u64, 300, 2000]) * MS;
            }
        }
        for s in g.sc.plan.services.iter_mut() {
            if matches!(s.tls.as_str(), "wrongname" | "untrusted" | "selfsigned" | "untrusted/12") {
                s.tls = g.r.pick(&["good", "expired", "notyet", "good/12", "expired/12", "notyet/12"]).to_string();
            }
        }
    }
    if g.r.chance(12) {
        // the trusted roots cannot always be read
        g.sc.plan.fs.read_under = "ca.pem".into();
        g.maybe(60, K::FileOpenErr, 4096, 40000);
        g.maybe(60, K::FileReadErr, 4096, 40000);
        g.maybe(40, K::FileShortRead, 4096, 40000);
        g.maybe(40, K::FileEintr, 4096, 30000);
    }
}

fn hostile(g: &mut G) {
    g.sc.flavour = "hostile".into();
    let all = g.r.chance(20);
    let o = ProgOpts { reqs: (1, 3), extra_asserts: (0, 2), https: if g.r.chance(10) { 50 } else { 0 }, state: 0, bodies: 20, big: 0, ..Default::default() };
    if all {
        g.all_tests(&o, (2, 4));
    } else {
        g.named(&o);
        g.load(4, 5);
    }
    g.tls_on(o.https);
    g.sched();
    // scripts that do not depend on what the server said
    for t in g.sc.prog.tests.iter_mut() {
        t.ops.retain(|op| !matches!(op, Op::If(E::Cmp(_, a, _), _, _) if matches!(**a, E::F(..))));
    }
    // assertions that compute with it
    let j = |n: &str| E::v("json").f(n);
    let mut pool = vec![
        (E::bin("/", j("n"), j("m")), "==".to_string(), E::I(1)),
        (E::bin("%", j("n"), j("m")), "==".to_string(), E::I(0)),
        (E::bin("%", E::Paren(Box::new(E::bin("-", j("n"), j("z")))), j("m")), "==".to_string(), E::I(0)),
        (E::bin("/", E::Paren(Box::new(E::bin("-", j("n"), j("z")))), j("m")), "==".to_string(), E::I(0)),
        (E::Neg(Box::new(E::Paren(Box::new(E::bin("-", j("n"), j("z")))))), "<".to_string(), E::I(0)),
        (E::bin("*", j("n"), j("z")), ">".to_string(), E::I(0)),
        (E::bin("+", j("n"), j("z")), ">".to_string(), E::I(0)),
        (E::bin("-", j("n"), j("z")), "<".to_string(), E::I(0)),
        (E::Neg(Box::new(j("n"))), "<".to_string(), E::I(0)),
        (E::bin("<<", j("n"), j("z")), "<".to_string(), E::I(0)),
        (E::bin(">>", j("n"), j("z")), "<".to_string(), E::I(0)),
        (E::bin("/", E::v("status"), E::Paren(Box::new(E::bin("-", E::v("status"), E::I(200))))), "<".to_string(), E::I(0)),
        (E::v("json").ix(E::I(-1)), "==".to_string(), E::I(0)),
        (j("n").ix(E::I(9_223_372_036_854_775_807)), "==".to_string(), E::I(0)),
        (E::Len(Box::new(E::v("json"))), "==".to_string(), E::I(0)),
    ];
    for r in g.sc.prog.requests.iter_mut() {
        for _ in 0..g.r.below(4) {
            let k = g.r.below(pool.len() as u64) as usize;
            r.asserts.push(pool[k].clone());
        }
    }
    pool.clear();
    g.net_noise();
    g.net_faults(10);
    g.rate(K::SrvFault, 40000);
    let n = g.sc.plan.services.len();
    for k in 0..n {
        let h = hostile_pool(&mut g.r);
        let s = &mut g.sc.plan.services[k];
        s.faults = vec![6, 6, 6, 6, 1, 2, 3, 5, 7];
        s.hostile = h;
        s.bodies.push(r#"{"n": 1, "m": 0, "z": 64}"#.into());
        s.bodies.push(r#"{"n": -3, "m": -1, "z": -1}"#.into());
        s.bodies.push(r#"{"n": 9223372036854775807, "m": 0, "z": 9223372036854775807}"#.into());
        s.bodies.push(r#"{"n": -9223372036854775807, "m": -1, "z": 1}"#.into());
        s.bodies.push("Hello world!".into());
    }
    g.sc.record = g.r.chance(20);
    g.sc.cpu_limit = 12;
}

fn progress(g: &mut G) {
    g.sc.flavour = "progress".into();
    let o = ProgOpts { reqs: (1, 2), extra_asserts: (0, 1), fail: 20, big: 5, https: if g.r.chance(20) { 60 } else { 0 }, ..Default::default() };
    let mut often = false;
    if g.r.chance(30) {
        g.all_tests(&o, (2, 6));
    } else {
        g.named(&o);
        g.sc.threads = g.r.range(2, 7) as u32;
        g.sc.number = g.sc.threads * g.r.range(2, 6) as u32;
        if g.r.chance(4) {
            often = true;
            g.sc.threads = g.r.range(1, 2) as u32;
            g.sc.number = g.sc.threads * g.r.range(60, 300) as u32;
        }
    }
    if g.r.chance(30) {
        // files on the way
        g.sc.extra.push(("up/a.bin".into(), fill(g.r.range(1, 40_000), 7)));
        for r in g.sc.prog.requests.iter_mut().filter(|r| r.method != "GET") {
            r.headers.retain(|h| !h.0.eq_ignore_ascii_case("content-type") && !h.0.eq_ignore_ascii_case("content-length"));
            let at = r.headers.len() - 1;
            r.headers.insert(at, ("Content-Type".into(), "multipart/form-data".into()));
            r.body = Body::Multi(vec![("a".into(), "{n}".into()), ("f".into(), "@up/a.bin".into())]);
        }
    }
    g.tls_on(o.https);
    g.sched();
    if often {
        for s in g.sc.plan.services.iter_mut() {
            s.bodies.retain(|b| !b.contains("@FILL"));
            if s.bodies.is_empty() {
                s.bodies.push("{}".into());
            }
        }
        g.sc.plan.max_steps = 20_000_000;
    }
    for s in g.sc.plan.services.iter_mut() {
        s.think_lo = *g.r.pick(&[0u64, 10, 500]) * MS;
        s.think_hi = s.think_lo + *g.r.pick(&[1u64, 2000, 30_000]) * MS;
        s.sndbuf = 0;
    }
    for h in g.sc.plan.hosts.iter_mut() {
        h.dns_delay = *g.r.pick(&[0u64, 1, 300]) * MS;
    }
    if often {
        g.sc.plan.max_time += 600 * 35 * SEC;
    } else if g.r.chance(40) {
        // one that takes its time to read
        let k = g.r.below(g.sc.plan.services.len() as u64) as usize;
        let s = &mut g.sc.plan.services[k];
        s.sndbuf = *g.r.pick(&[300usize, 4096, 8192]);
        s.latency = *g.r.pick(&[40u64, 200, 900]) * MS;
        g.sc.plan.max_time += 40_000 * SEC;
    }
    g.maybe(40, K::DnsDelay, 8192, 40000);
    g.maybe(40, K::ConnDelay, 8192, 40000);
    g.maybe(20, K::RecvShort, 512, 4096);
    g.net_faults(20);
    g.sc.record = g.r.chance(40);
    g.sc.stat = g.r.chance(50);
}

fn repl(g: &mut G) {
    g.sc.mode = Mode::Repl;
    g.sc.flavour = "repl".into();
    let s = g.service();
    g.host("h0.test", s);
    let dead = g.host("dead.test", s);
    g.sc.plan.hosts[dead].addrs.truncate(1);
    g.sc.plan.hosts[dead].addrs[0].outcome = 1;
    let n = g.r.range(1, 25);
    let mut env: Env = Env::new();
    let mut defined = false;
    let mut lines: Vec<Line> = Vec::new();
    let mut ended = false;
    for i in 0..n {
        let say;
        let text;
        let known: Vec<String> = env.keys().cloned().collect();
        match g.r.below(28) {
            16 | 17 => {
                // evaluated twice it would show
                env.entry("count".into()).or_insert(Val::Null);
                let x = match &env["count"] {
                    Val::Int(x) => x + 1,
                    _ => 0,
                };
                text = if x == 0 { "let count = 0".into() } else { "let count = count + 1;".to_string() };
                env.insert("count".into(), Val::Int(x));
                say = Say::Exact(vec![x.to_string()]);
            }
            18 => {
                // several statements
                let x = g.r.below(1000) as i64;
                env.insert("many".into(), Val::Int(x + 1));
                text = format!("  let many = {x}; println(\"MARK {i}\");let many = many + 1; many;  ");
                say = Say::Exact(vec![format!("MARK {i}"), (x + 1).to_string()]);
            }
            19 => {
                let x = fill(*g.r.pick(&[200u64, 1100, 4080, 4200, 8200, 17_000, 70_000]), i);
                text = format!("let wide = \"{x}\"");
                env.insert("wide".into(), Val::Str(x.clone()));
                say = Say::Exact(vec![x]);
            }
            20 => {
                let k = g.r.below(9) as i64;
                text = format!("if ({k} > 4) {{ let side = \"up\"; }} else {{ let side = \"down\"; }}; side");
                let x = if k > 4 { "up" } else { "down" };
                env.insert("side".into(), Val::Str(x.into()));
                say = Say::Exact(vec![x.into()]);
            }
            21 => {
                // an exchange that fails defines something all the same
                if defined {
                    env.insert("fate".into(), Val::Int(0));
                    text = "let fate = dead().status".into();
                    say = Say::Exact(vec!["0".into()]);
                } else {
                    defined = true;
                    text = "request ping`GET http://h0.test/ping?n=1`[status == 200]request dead`GET http://dead.test/`".into();
                    say = Say::Exact(vec!["null".into()]);
                }
            }
            22 if defined => {
                env.insert("back".into(), Val::Str("HTTP/1.1".into()));
                text = "let back = ping().version;".into();
                say = Say::Exact(vec!["HTTP/1.1".into()]);
            }
            23 => {
                text = g.r.pick(&["\u{ffff}", "let alpha0 = \"\u{ffff}\"", "println(\"MARK \u{ffff}\")"]).to_string();
                say = Say::Some;
            }
            24 => {
                // fails in the middle, what was defined before stays
                text = format!("println(\"MARK {i} half\"); lost_{i}; println(\"MARK not\")");
                say = Say::Exact(vec![format!("MARK {i} half"), format!("ident:lost_{i} not found")]);
            }
            25 => {
                let (a, b) = (g.r.below(20) as i64, g.r.below(20) as i64);
                let op = *g.r.pick(&["<", ">", "<=", ">=", "==", "!="]);
                let e = E::cmp(op, E::I(a), E::I(b));
                text = e.to_string();
                say = Say::Exact(vec![eval(&e, &env).unwrap().to_string()]);
            }
            26 => {
                text = format!("format(\"MARK {i} {{a}}-{{b}}\", length(\"abc\"), append([1], 2)[1])");
                say = Say::Exact(vec![format!("MARK {i} 3-2")]);
            }
            0..=3 => {
                let v = format!("{}{}", g.r.pick(WORDS), g.r.below(2));
                if g.r.chance(60) {
                    let x = g.r.below(1000) as i64;
                    env.insert(v.clone(), Val::Int(x));
                    text = format!("let {} = {};", v, x);
                    say = Say::Exact(vec![x.to_string()]);
                } else {
                    let x = g.r.pick(WORDS).to_string();
                    env.insert(v.clone(), Val::Str(x.clone()));
                    text = format!("let {} = \"{}\"", v, x);
                    say = Say::Exact(vec![x]);
                }
            }
            4..=6 if !known.is_empty() => {
                let v = g.r.pick(&known).clone();
                text = v.clone();
                say = Say::Exact(vec![env[&v].to_string()]);
            }
            7..=8 if !known.is_empty() => {
                let v = g.r.pick(&known).clone();
                text = format!("println(\"MARK {i} {{a}}\", {v})");
                say = Say::Exact(vec![format!("MARK {i} {}", env[&v]), "null".into()]);
            }
            9 if !known.is_empty() => {
                let v = g.r.pick(&known).clone();
                let e = E::bin("+", E::v(&v), E::I(1));
                text = e.to_string();
                say = match eval(&e, &env) {
                    Ok(x) => Say::Exact(vec![x.to_string()]),
                    Err(_) => Say::Some,
                };
            }
            10 => {
                let v = format!("nothing{}", g.r.below(5));
                text = v.clone();
                say = Say::Exact(vec![format!("ident:{} not found", v)]);
            }
            11 => {
                text = g.r.pick(&["let = 5", "1 +", ")", "let a", "[1, 2", "if (", "\"open", "1 2 ! 3", "}{", "a b c ,", "# note", "// note", "/* note */", "@", "$x", "  # note", ";", "\\", "'x'", "=", "help"]).to_string();
                say = Say::Some;
                // whatever it does, it is one line of input and must not end the session;
                // names it may define are never used again
            }
            12 => {
                text = g.r.pick(&["", " ", "\t", "   "]).to_string();
                say = Say::Nothing;
            }
            13 => {
                let k = g.r.below(100) as i64;
                let op = *g.r.pick(&["+", "-", "*"]);
                let e = E::bin(op, E::I(k), E::I(g.r.below(50) as i64));
                text = e.to_string();
                say = Say::Exact(vec![eval(&e, &env).unwrap().to_string()]);
            }
            14 => {
                if g.r.chance(50) || defined {
                    text = format!("println(\"MARK {i} unicode \u{65e5}\u{672c} \u{1f600} {}\")", fill(g.r.below(300), i));
                    say = Say::Exact(vec![text[9..text.len() - 2].to_string(), "null".into()]);
                } else {
                    defined = true;
                    text = "request ping`GET http://h0.test/ping?n=1`[status == 200]request dead`GET http://dead.test/`".into();
                    say = Say::Exact(vec!["null".into()]);
                }
            }
            _ => {
                if g.r.chance(25) && i > 2 {
                    text = "exit".into();
                    say = Say::Exit;
                    ended = true;
                } else if defined {
                    text = "ping().version".into();
                    say = Say::Exact(vec!["HTTP/1.1".into()]);
                } else {
                    text = "1 / 0".into();
                    say = Say::Some;
                }
            }
        }
        lines.push(Line { text, say });
        if ended && g.r.chance(70) {
            break;
        }
    }
    if let Some(s) = g.sc.plan.services.first_mut() {
        s.statuses = vec![(200, "OK".into())];
        s.faults.clear();
    }
    g.sc.lines = lines;
    g.sc.last_newline = g.r.chance(75);
    g.sc.crlf = g.r.chance(12);
    if !g.sc.last_newline && g.sc.lines.last().map(|l| l.text.is_empty()) == Some(true) {
        g.sc.last_newline = true;
    }
    g.sc.line_gap = *g.r.pick(&[1u64, MS, 100 * MS, 5 * SEC]);
    g.maybe(60, K::InShort, 2048, 60000);
    g.maybe(40, K::InEintr, 1024, 20000);
    g.maybe(40, K::OutShort, 1024, 20000);
    g.sc.plan.max_steps = 400_000;
}

fn sources(g: &mut G) {
    g.sc.flavour = "sources".into();
    g.sc.mode = Mode::All;
    let n = g.r.range(1, 9) as usize;
    let names = ["a", "b", "ab", "a-b", "a.b", "B", "z", "10", "9", "m\u{e9}", "_x", "a b", ".h"];
    let dirs = ["a", "b", "ab", "a-b", "a.b", "B", "z", "10", "d.fan", ".hid"];
    let mut paths: Vec<String> = Vec::new();
    for _ in 0..n {
        let depth = if g.r.chance(5) { g.r.range(3, 6) } else { g.r.below(3) };
        let mut p = String::new();
        for _ in 0..depth {
            p.push_str(g.r.pick(&dirs));
            p.push('/');
        }
        p.push_str(g.r.pick(&names));
        p.push_str(".fan");
        // a path must not be both a file and a directory
        if !paths.contains(&p) && !paths.iter().any(|q| q.starts_with(&format!("{p}/")) || p.starts_with(&format!("{q}/"))) {
            paths.push(p);
        }
    }
    paths.sort_by(|a, b| std::path::Path::new(a).cmp(std::path::Path::new(b)));
    // what each file says; the order of the whole decides what is printed
    let mut texts: Vec<String> = Vec::new();
    for i in 0..paths.len() {
        let mut t = format!("println(\"MARK part {i}\");\nlet order = {i};\n");
        if g.r.chance(40) {
            let most = if g.r.chance(8) { 200_000 } else { 20_000 };
            t.push_str(&format!("let pad = \"{}\";\n", fill(g.r.range(1, most), g.r.next())));
        }
        t.push_str(&format!("println(\"MARK end {i} {{o}} \u{e9}\u{65e5}\", order);\n"));
        texts.push(t);
    }
    if g.r.chance(60) {
        let k = g.r.below(texts.len() as u64) as usize;
        texts[k].push_str("test t {\n  println(\"MARK test {o}\", order);\n}\n");
    }
    match g.r.below(10) {
        0..=3 => {
            // cut anywhere: a statement begins in one file and ends in the next
            let whole: Vec<char> = texts.concat().chars().collect();
            let mut cuts: Vec<usize> = (1..texts.len()).map(|_| g.r.below(whole.len() as u64 + 1) as usize).collect();
            cuts.push(0);
            cuts.push(whole.len());
            cuts.sort();
            texts = cuts.windows(2).map(|w| whole[w[0]..w[1]].iter().collect()).collect();
        }
        4 => {
            for t in texts.iter_mut() {
                t.pop();
            }
        }
        5 if g.r.chance(50) => {
            // bytes that are no text
            let k = g.r.below(texts.len() as u64) as usize;
            let t = g.r.pick(&["let x = \"\u{ffff}\";\n", "\u{ffff}", "let pad = \"\u{ffff}\";\n"]).to_string();
            if g.r.chance(50) {
                texts[k].push_str(&t);
            } else {
                texts[k].insert_str(0, &t);
            }
        }
        6 => {
            let k = g.r.below(texts.len() as u64) as usize;
            if texts.len() > 1 {
                texts[k].clear();
            }
        }
        7 if paths.len() > 1 => match g.r.below(3) {
            // a part of the tree, or one file
            0 => g.sc.path = format!("src/{}", g.r.pick(&paths)),
            1 => {
                let p = g.r.pick(&paths).clone();
                g.sc.path = match p.split_once('/') {
                    Some((d, _)) => format!("src/{d}"),
                    None => "src/".into(),
                }
            }
            _ => g.sc.path = g.r.pick(&[".", "./src", "src/../src", "src//"]).to_string(),
        },
        8 if paths.len() > 1 => {
            // one of them is a link to a file elsewhere
            let k = g.r.below(paths.len() as u64) as usize;
            let up = "../".repeat(paths[k].matches('/').count() + 1);
            g.sc.extra.push(("linked/text".into(), texts[k].clone()));
            g.sc.links.push((format!("src/{}", paths[k]), format!("{up}linked/text")));
        }
        9 if g.r.chance(50) => {
            // one of the directories is a link to one elsewhere
            let k = g.r.below(paths.len() as u64) as usize;
            if let Some((d, rest)) = paths[k].clone().split_once('/') {
                if paths.iter().filter(|p| p.starts_with(&format!("{d}/"))).count() == 1 {
                    g.sc.extra.push((format!("linked/{rest}"), texts[k].clone()));
                    g.sc.links.push((format!("src/{}", d), "../linked".into()));
                    
                }
            }
        }
        _ => {}
    }
    g.sc.frags = paths.into_iter().zip(texts).collect();
    for x in ["notes.txt", "a.fan.bak", "fan", "README", "b.FAN", "sub/c.fanx", ".fan", "sub/.fan"] {
        if g.r.chance(25) {
            g.sc.frags.push((x.into(), "println(\"MARK wrong file\");\n".into()));
        }
    }
    if let Some((l, _)) = g.sc.links.first() {
        let l = l.clone();
        g.sc.frags.retain(|f| format!("src/{}", f.0) != l && !format!("src/{}", f.0).starts_with(&format!("{l}/")));
    }
    // the order in which they are created must not matter either
    for i in (1..g.sc.frags.len()).rev() {
        let j = g.r.below(i as u64 + 1) as usize;
        g.sc.frags.swap(i, j);
    }
    g.rate(K::DirOrder, 65000);
    g.sc.plan.fs.read_under = "src".into();
    g.maybe(60, K::FileShortRead, 2048, 60000);
    g.maybe(40, K::FileEintr, 1024, 20000);
    g.maybe(20, K::OpenEintr, 1024, 20000);
    if g.r.chance(40) {
        match g.r.below(4) {
            0 => g.rate(K::FileReadErr, 9000),
            1 => g.rate(K::FileOpenErr, 9000),
            2 => g.rate(K::StatErr, 9000),
            _ => g.rate(K::DirErr, 12000),
        }
    }
    g.sched();
}

fn uploads(g: &mut G) {
    g.sc.flavour = "upload".into();
    let o = ProgOpts { reqs: (1, 2), bodies: 0, extra_asserts: (0, 1), https: if g.r.chance(15) { 100 } else { 0 }, state: 30, ..Default::default() };
    g.named(&o);
    g.load(3, 3);
    let files = g.r.range(1, 4);
    for k in 0..files {
        let size = match g.r.below(5) {
            0 => 0,
            1 => g.r.below(20),
            2 => g.r.range(100, 3000),
            3 => g.r.range(8000, 8400),
            _ if g.r.chance(4) => g.r.range(500_000, 1_500_000),
            _ => g.r.range(20_000, 120_000),
        };
        let ext = *g.r.pick(&["txt", "bin", "bin", "json", "png", "gz", "", "html"]);
        let stem = match g.r.below(12) {
            0 => format!("two words{k}"),
            1 => format!("\u{e4}\u{65e5}{k}"),
            2 => format!("UP.f-{k}_(1)'"),
            3 => format!(".h{k}"),
            4 => format!("a ;b, c=d{k}"),
            5 => format!("x@y#{k}%20+&"),
            _ => format!("f{k}"),
        };
        let path = if ext.is_empty() { format!("up/{stem}") } else { format!("up/{stem}.{ext}") };
        let text = if ext == "bin" {
            let mut x = g.r.next();
            match g.r.below(3) {
                // any bytes
                0 => (0..size)
                    .map(|_| {
                        x = mix(x);
                        (x % 256) as u8 as char
                    })
                    .collect(),
                // line ends and dashes
                1 => (0..size)
                    .map(|_| {
                        x = mix(x);
                        ['\r', '\n', '-', '\r', '\n', '\0', '\u{ff}', '\u{1a}', ' ', '\t'][(x % 10) as usize]
                    })
                    .collect(),
                _ => (0..size).map(|i| if i % 256 == 255 { '\n' } else { (i % 256) as u8 as char }).collect(),
            }
        } else if g.r.chance(30) {
            let t = fill(size, g.r.next());
            format!("{}{}{}", g.r.pick(&["\r\n", "\u{feff}", " ", "--"]), t, g.r.pick(&["\r\n", "\n\n", "\u{e4}", " ", "--\r\n"]))
        } else {
            fill(size, g.r.next())
        };
        g.sc.extra.push((path, text));
    }
    let names: Vec<String> = g.sc.extra.iter().map(|x| x.0.clone()).collect();
    for i in 0..g.sc.prog.requests.len() {
        let mut parts: Vec<(String, String)> = Vec::new();
        for _ in 0..g.r.range(1, 5) {
            let name = format!("{}{}", g.r.pick(WORDS), parts.len());
            if g.r.chance(60) {
                let f = if g.r.chance(12) { "up/missing.txt".to_string() } else { g.r.pick(&names).clone() };
                parts.push((name, format!("@{f}")));
            } else {
                parts.push((name, g.r.pick(&["v", "two words", "{n}", "{tag}", "a=b&c", "x: y", "", "a@b", "\"q\"", "http://x.test/?a=1", "\u{e4}\u{1f600}", "50%", "--", "v;w"]).to_string()));
            }
        }
        if g.r.chance(10) {
            // a part of the same name, and a part twice
            let p = g.r.pick(&parts).clone();
            parts.push((p.0.clone(), if g.r.chance(50) { p.1 } else { "again".into() }));
        }
        let r = &mut g.sc.prog.requests[i];
        r.method = "POST".into();
        let at = r.headers.len() - 1;
        r.headers.insert(at, ("Content-Type".into(), "multipart/form-data".into()));
        r.body = Body::Multi(parts);
    }
    g.tls_on(o.https);
    g.sched();
    g.net_noise();
    g.maybe(50, K::SendShort, 2048, 40000);
    g.net_faults(12);
    for s in g.sc.plan.services.iter_mut() {
        s.sndbuf = *g.r.pick(&[0, 1000, 8192, 20000]);
    }
    g.sc.plan.fs.read_under = "up/".into();
    g.maybe(60, K::FileShortRead, 2048, 60000);
    g.maybe(30, K::FileEintr, 1024, 20000);
    if g.r.chance(40) {
        if g.r.chance(50) {
            let p = g.r.range(2000, 20000) as u32;
            g.rate(K::FileReadErr, p);
        } else {
            let p = g.r.range(2000, 20000) as u32;
            g.rate(K::FileOpenErr, p);
        }
    }
}
