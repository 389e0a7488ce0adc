//! Makes a failing execution small: its decisions are replayed instead of
//! drawn, then the scenario and the decisions are reduced while the same rule
//! of the same property stays violated.
use crate::check::V;
use crate::model::*;
use crate::run::{Env, Slot};
use crate::scen::*;
use crate::{log_hash, one, relevant, One};
use std::time::{Duration, Instant};

pub struct Small {
    pub sc: Scenario,
    pub v: V,
    pub hash: u64,
    pub log: String,
    pub steps: String,
}

struct S<'a> {
    env: &'a Env,
    slot: Slot,
    prop: &'a str,
    rule: &'static str,
    until: Instant,
    tried: usize,
}
impl<'a> S<'a> {
    fn fails(&mut self, sc: &Scenario) -> Option<(One, V)> {
        if Instant::now() > self.until {
            return None;
        }
        self.tried += 1;
        let o = one(self.env, &self.slot, sc).ok()?;
        let v = relevant(self.prop, &o.vs).into_iter().find(|v| v.rule == self.rule)?.clone();
        Some((o, v))
    }
}

pub fn shrink(env: &Env, sc: &Scenario, o: &One, prop: &str, secs: u64) -> Small {
    let v = relevant(prop, &o.vs)[0].clone();
    let slot = match Slot::new(env, 200) {
        Ok(s) => s,
        Err(_) => return Small { sc: sc.clone(), v, hash: log_hash(&o.out.log), log: o.out.log.clone(), steps: "not reduced".into() },
    };
    let mut s = S { env, slot, prop, rule: v.rule, until: Instant::now() + Duration::from_secs(secs), tried: 0 };
    let mut cur = sc.clone();
    cur.plan.replay = true;
    cur.plan.decisions = o.out.hist.decisions.clone();
    let (mut best, mut bv) = match s.fails(&cur) {
        Some(x) => x,
        // the recorded decisions do not reproduce it: keep the seed
        None => return Small { sc: sc.clone(), v, hash: log_hash(&o.out.log), log: o.out.log.clone(), steps: "not reduced".into() },
    };
    let first = cur.plan.decisions.len();
    // the scenario
    let mut progress = true;
    while progress && Instant::now() < s.until {
        progress = false;
        for c in smaller(&cur) {
            if let Some((x, v)) = s.fails(&c) {
                cur = c;
                best = x;
                bv = v;
                progress = true;
                break;
            }
        }
    }
    // the decisions, by kind, then in halves
    let kinds: Vec<u8> = {
        let mut k: Vec<u8> = cur.plan.decisions.iter().map(|d| d.kind).collect();
        k.sort();
        k.dedup();
        k
    };
    for k in kinds {
        let mut c = cur.clone();
        c.plan.decisions.retain(|d| d.kind != k);
        if let Some((x, v)) = s.fails(&c) {
            cur = c;
            best = x;
            bv = v;
        }
    }
    let mut chunk = cur.plan.decisions.len().div_ceil(2).max(1);
    while !cur.plan.decisions.is_empty() && Instant::now() < s.until {
        let mut at = 0;
        let mut removed = false;
        while at < cur.plan.decisions.len() && Instant::now() < s.until {
            let mut c = cur.clone();
            let end = (at + chunk).min(c.plan.decisions.len());
            c.plan.decisions.drain(at..end);
            if let Some((x, v)) = s.fails(&c) {
                cur = c;
                best = x;
                bv = v;
                removed = true;
            } else {
                at = end;
            }
        }
        if chunk == 1 && !removed {
            break;
        }
        if !removed || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    let steps = format!("{first} decisions reduced to {} in {} executions", cur.plan.decisions.len(), s.tried);
    Small { v: bv, hash: log_hash(&best.out.log), log: best.out.log, sc: cur, steps }
}

fn smaller(sc: &Scenario) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = Vec::new();
    let mut add = |f: &dyn Fn(&mut Scenario)| {
        let mut c = sc.clone();
        f(&mut c);
        if serde_json::to_string(&c).ok() != serde_json::to_string(sc).ok() {
            v.push(c);
        }
    };
    if sc.mode == Mode::Named {
        add(&|c| c.number /= 2);
        add(&|c| c.number = c.number.saturating_sub(1));
        add(&|c| c.threads = (c.threads / 2).max(1));
        add(&|c| c.threads = c.threads.saturating_sub(1).max(1));
    }
    if sc.prop != "C14" {
        add(&|c| c.stat = false);
    }
    if !matches!(sc.prop.as_str(), "C08" | "C09" | "C10" | "C11") {
        add(&|c| c.record = false);
    }
    for k in 0..sc.plan.wall_jumps.len() {
        add(&|c| {
            c.plan.wall_jumps.remove(k);
        });
    }
    for k in 0..sc.plan.sigint_times.len() {
        add(&|c| {
            c.plan.sigint_times.remove(k);
        });
    }
    for k in 0..sc.lines.len() {
        if sc.lines[k].say != Say::Exit {
            add(&|c| {
                c.lines.remove(k);
            });
        }
    }
    for k in 0..sc.prog.tests.len() {
        if sc.prog.tests[k].name != sc.test {
            add(&|c| {
                c.prog.tests.remove(k);
            });
        }
        for j in 0..sc.prog.tests[k].ops.len() {
            if matches!(&sc.prog.tests[k].ops[j], Op::Print(t, _) if t.starts_with("MARK start")) {
                continue;
            }
            add(&|c| {
                c.prog.tests[k].ops.remove(j);
            });
        }
    }
    for k in 0..sc.prog.requests.len() {
        add(&|c| c.prog.requests[k].body = Body::None);
        add(&|c| c.prog.requests[k].asserts.truncate(1));
        add(&|c| c.prog.requests[k].junk.clear());
        let used = {
            let t = serde_json::to_string(&(&sc.prog.tests, &sc.prog.top)).unwrap_or_default();
            t.contains(&format!("\"{}\"", sc.prog.requests[k].name))
        };
        if !used {
            add(&|c| {
                c.prog.requests.remove(k);
            });
        }
    }
    if !sc.plan.rates.is_empty() {
        add(&|c| c.plan.rates.clear());
    }
    v
}
