//! A scenario: everything that determines one simulated execution.
use crate::hist::hex;
use crate::model::Prog;
use proto::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Mode {
    Named,
    All,
    Repl,
}

/// What one line of an interactive session must print.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Say {
    /// exactly these lines
    Exact(Vec<String>),
    /// at least one line, whatever it says
    Some,
    /// nothing (blank line)
    Nothing,
    /// the session ends here
    Exit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Line {
    pub text: String,
    pub say: Say,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub flavour: String,
    pub seed: u64,
    pub plan: Plan,
    pub prog: Prog,
    pub mode: Mode,
    pub test: String,
    pub threads: u32,
    pub number: u32,
    /// seconds; 0: numbered run
    pub duration: u64,
    pub record: bool,
    pub stat: bool,
    /// source files (path under src, text); empty: the whole program in src/main.fan
    pub frags: Vec<(String, String)>,
    /// further files, relative to the working directory
    pub extra: Vec<(String, String)>,
    pub lines: Vec<Line>,
    pub line_gap: u64,
    pub last_newline: bool,
    /// lines end with a carriage return, too
    #[serde(default)]
    pub crlf: bool,
    pub dirs: Vec<String>,
    pub pod: String,
    pub cpu_limit: u64,
    /// how the arguments are written: 1 short flags, 2 defaults omitted, 4 no path, 8 a number beside the duration,
    /// 16 flags before the name, 32 seconds whatever the duration
    #[serde(default)]
    pub style: u8,
    /// symbolic links: (path, target as written in the link)
    #[serde(default)]
    pub links: Vec<(String, String)>,
    /// what --path is given
    #[serde(default)]
    pub path: String,
}

/// The bytes of a source text; U+FFFF stands for two bytes that are no text.
/// The content of an extra file: in a `.bin` file every character stands for a byte.
pub fn file_bytes(path: &str, t: &str) -> Vec<u8> {
    if path.ends_with(".bin") {
        t.chars().map(|c| c as u32 as u8).collect()
    } else {
        t.as_bytes().to_vec()
    }
}
fn raw_bytes(t: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, part) in t.split('\u{ffff}').enumerate() {
        if i > 0 {
            v.extend([0xff, 0xfe]);
        }
        v.extend(part.as_bytes());
    }
    v
}

impl Scenario {
    pub fn args(&self) -> Vec<String> {
        if self.mode == Mode::Repl {
            return vec![];
        }
        let on = |bit: u8| self.style & bit != 0;
        let mut flags: Vec<String> = Vec::new();
        let mut add = |long: &str, value: Option<String>| {
            let flag = if on(1) { format!("-{}", &long[..1]) } else { format!("--{long}") };
            flags.push(flag);
            flags.extend(value);
        };
        if self.mode == Mode::Named {
            if !(on(2) && self.threads == 1) {
                add("threads", Some(self.threads.to_string()));
            }
            if self.duration > 0 {
                let d = self.duration;
                let text = match () {
                    _ if on(32) => format!("{d}s"),
                    _ if d % 3600 == 0 => format!("{}h", d / 3600),
                    _ if d % 60 == 0 => format!("{}m", d / 60),
                    _ => format!("{d}s"),
                };
                add("duration", Some(text));
                if on(8) {
                    add("number", Some("2".into()));
                }
            } else if !(on(2) && self.number == 1) {
                add("number", Some(self.number.to_string()));
            }
        }
        if !on(4) {
            add("path", Some(if self.path.is_empty() { "src".into() } else { self.path.clone() }));
        }
        if self.record {
            add("record", Some("rec".into()));
        }
        if self.stat {
            add("stat", None);
        }
        let mut a = vec!["test".to_string()];
        if self.mode == Mode::Named && !on(16) {
            a.push(self.test.clone());
        }
        a.extend(flags);
        if self.mode == Mode::Named && on(16) {
            a.push(self.test.clone());
        }
        a
    }
    pub fn env(&self) -> Vec<(String, String)> {
        if self.pod.is_empty() {
            vec![]
        } else {
            vec![("POD".into(), self.pod.clone())]
        }
    }
    pub fn all_files(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = Vec::new();
        if self.mode != Mode::Repl {
            if self.frags.is_empty() {
                v.push(("src/main.fan".into(), self.prog.render().into_bytes()));
            } else {
                for (p, t) in &self.frags {
                    v.push((format!("src/{p}"), raw_bytes(t)));
                }
            }
        }
        for (p, t) in &self.extra {
            v.push((p.clone(), file_bytes(p, t)));
        }
        v
    }
    /// The plan handed to the simulator.
    pub fn full_plan(&self) -> Plan {
        let mut plan = self.plan.clone();
        if self.mode == Mode::Repl {
            let mut text = String::new();
            for (i, l) in self.lines.iter().enumerate() {
                text.push_str(&l.text);
                if self.crlf && (i + 1 < self.lines.len() || self.last_newline) {
                    text.push('\r');
                }
                if i + 1 < self.lines.len() || self.last_newline {
                    text.push('\n');
                }
            }
            // U+FFFF stands for a byte that is not text
            let b: Vec<u8> = text.split('\u{ffff}').map(|t| t.as_bytes()).collect::<Vec<_>>().join(&0xff);
            let mut r = Rng::new(self.seed ^ 0x57d1);
            let mut at = 0;
            let mut t = 0;
            while at < b.len() {
                let m = match r.below(4) {
                    0 => 1 + r.below(3),
                    1 => 1 + r.below(20),
                    2 => 1 + r.below(100),
                    _ => b.len() as u64,
                } as usize;
                let m = m.min(b.len() - at);
                plan.stdin.push(Chunk { at: t, data: hex(&b[at..at + m]) });
                at += m;
                t += r.below(self.line_gap.max(1));
            }
            plan.stdin_eof_at = t;
        }
        plan
    }
    pub fn record_dir(&self) -> Option<String> {
        self.record.then(|| "rec".to_string())
    }
}
