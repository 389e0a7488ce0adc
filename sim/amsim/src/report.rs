//! Evidence and replay files.
use crate::hist::{End, Hist};
use crate::run::{self, Env, Slot};
use crate::scen::*;
use crate::{root, One};
use proto::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::PathBuf;

/// The choices of a run that were not the default, by name.
pub fn faults(sc: &Scenario, h: &Hist) -> BTreeMap<String, u64> {
    let mut m: BTreeMap<String, u64> = BTreeMap::new();
    for d in &h.decisions {
        if d.v == 0 {
            continue;
        }
        let name = K::ALL.iter().find(|(k, _)| *k as u8 == d.kind).map(|(_, n)| *n).unwrap_or("?");
        if name == "srv.fault" {
            continue;
        }
        *m.entry(name.to_string()).or_default() += 1;
    }
    for c in h.conns.values() {
        for r in &c.resps {
            let n = match r.fault {
                1 => "server closes without answering",
                2 => "server resets without answering",
                3 => "server closes inside the head",
                4 => "server closes inside the body",
                5 => "server resets inside the response",
                6 => "server sends hostile bytes",
                7 => "server stalls",
                8 => "server resets after the response",
                11 => "server omits close_notify",
                _ => continue,
            };
            *m.entry(n.into()).or_default() += 1;
        }
        if c.resps.is_empty() && c.fault == 9 {
            *m.entry("server resets at accept".into()).or_default() += 1;
        }
        match c.res {
            Some((_, _, e)) if e != 0 => *m.entry("connection attempt fails".into()).or_default() += 1,
            None => *m.entry("connection attempt hangs".into()).or_default() += 1,
            _ => {}
        }
    }
    if !h.walljumps.is_empty() {
        m.insert("wall clock jump".into(), h.walljumps.len() as u64);
    }
    if h.end == Some(End::Killed) {
        m.insert("process killed".into(), 1);
    }
    if !h.sigints.is_empty() {
        m.insert("interrupt signal".into(), h.sigints.len() as u64);
    }
    let full = h.fwrites.iter().filter(|w| w.5 == -28).count() as u64;
    if full > 0 && sc.plan.fs.capacity != u64::MAX {
        m.insert("disk full".into(), full);
    }
    m
}
pub fn is_fault(name: &str) -> bool {
    !name.starts_with("sched.") && !matches!(name, "srv.think" | "srv.segmentation" | "srv.status" | "srv.body" | "srv.headers" | "srv.framing" | "srv.gap" | "srv.fault_pos" | "signal.thread")
}

fn needs(prop: &str) -> &'static str {
    match prop {
        "C01" => "at least two workers were active",
        "C02" => "at least two report blocks were printed and a fault was injected or threads were switched",
        "C03" => "an exchange completed and, in the same run, a fault was injected",
        "C04" => "an exchange completed while reads were cut short or several workers were active",
        "C05" => "an exchange was made and a fault was injected or several workers were active",
        "C06" => "at least two workers were active",
        "C07" => "a host with several addresses was connected to",
        "C08" => "an exchange completed and its times were recorded",
        "C09" => "records were written and a fault was injected or several workers were active",
        "C10" => "the process was killed while a worker was running",
        "C11" => "a write to a recording failed",
        "C12" => "a timed run executed at least two iterations",
        "C13" => "an interrupt was handled while workers were running",
        "C14" => "statistics were due for at least two reported exchanges",
        "C15" => "an https exchange was attempted",
        "C16" => "a server sent hostile bytes or broke an exchange",
        "C17" => "at least two workers were active and one of them waited for a server or failed",
        "C18" => "at least two input lines were evaluated",
        "C19" => "at least two source files were read",
        "C20" => "at least two tests were run",
        "C25" => "at least two exchanges were made",
        "C26" => "at least two report blocks were printed",
        _ => "a request with a multipart body was made",
    }
}
pub fn nontrivial(sc: &Scenario, o: &One, fired: u64) -> bool {
    let (f, h) = (&o.f, &o.out.hist);
    match sc.prop.as_str() {
        "C01" | "C06" | "C20" => f.workers >= 2,
        "C02" => f.blocks >= 2 && (fired > 0 || h.switches > 0),
        "C03" => f.done > 0 && fired > 0,
        "C04" => f.done > 0 && (fired > 0 || f.workers > 1),
        "C05" => f.exchanges > 0 && (fired > 0 || f.workers > 1),
        "C07" => f.races > 0,
        "C08" => f.done > 0 && f.records > 0,
        "C09" => f.records > 0 && (fired > 0 || f.workers > 1),
        "C10" => f.killed && f.workers > 0,
        "C11" => h.fwrites.iter().any(|w| w.5 < 0 && w.5 != -4),
        "C12" => f.iterations >= 2,
        "C13" => f.sigint && f.workers > 0,
        "C14" => f.blocks >= 2,
        "C15" => f.exchanges > 0,
        "C16" => h.conns.values().any(|c| c.resps.iter().any(|r| r.fault != 0)),
        "C17" => f.workers >= 2 && f.exchanges >= 2,
        "C18" | "C19" => f.lines >= 2,
        "C25" => f.exchanges >= 2,
        "C26" => f.blocks >= 2,
        _ => f.exchanges > 0,
    }
}

pub fn sample(sc: &Scenario, o: &One) -> serde_json::Value {
    let h = &o.out.hist;
    let fl = faults(sc, h);
    json!({
        "seed": sc.seed,
        "arguments": sc.args().join(" "),
        "program": if sc.mode == Mode::Repl { sc.lines.iter().map(|l| l.text.clone()).collect::<Vec<_>>().join("\n") } else if sc.prop == "C19" { sc.frags.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(" ") } else { cut(&sc.prog.render(), 1200) },
        "choices": fl,
        "simulated_ms": (h.end_t.saturating_sub(MONO_BASE)) / MS,
        "threads": h.parents.len() + 1,
        "context_switches": h.switches,
        "exchanges": {"completed": o.f.done, "failed": o.f.failed},
        "end": format!("{:?}", h.end),
        "output_head": cut(&String::from_utf8_lossy(&h.out), 400),
    })
}
fn cut(s: &str, n: usize) -> String {
    let mut t: String = s.chars().take(n).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

/// The log without what names the scratch directory.
pub fn norm(log: &str) -> String {
    // how much is allocated depends on the length of the scratch directory's name
    log.lines().filter(|l| l.split(' ').nth(2) != Some("HEAP")).flat_map(|l| [l, "\n"]).collect()
}

pub fn evidence(prop: &str, thorough: bool, seed: u64, cov: &serde_json::Value, wall: f64, violations: u64) {
    let mut cov = cov.clone();
    cov["rule"] = json!(format!(
        "One case is one simulated execution of the real program, generated from VERIF_SEED and the run's number: program under test input (script, servers, files, arguments), schedule and faults. It counts as non-trivial if {}; distinct by the hash of its (thread, event) sequence.",
        needs(prop)
    ));
    cov["components_real"] = json!(["basjoofan executable built from /repo (all of cmd and lib)", "rustls, rustls-platform-verifier, ring/aws-lc (client side TLS)", "multipart, form_urlencoded, clap, ctrlc", "Rust std (threads, mpsc, stdio, net, fs)"]);
    cov["components_simulated"] = json!([
        "threads' scheduling, futexes and sleeping (one thread runs at a time, switched at library calls and atomic operations)",
        "clocks", "name resolution", "TCP sockets and the network", "servers (TLS side: real rustls server inside the simulator)",
        "standard input and output", "signals", "randomness", "results of file operations (contents are kept in real scratch files)"
    ]);
    let e = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "threads interact only through library calls and atomic operations (true of safe Rust); memory is sequentially consistent",
            "the simulated sockets, resolver, clocks and files behave as documented for Linux",
            "servers answer one request per connection and close it (the client reads to the end of the stream)",
            "coverage is a sample: properties are shown to hold on the runs explored, not on all"
        ],
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&e).unwrap() + "\n");
}

pub fn write_replay(prop: &str, orig: &Scenario, s: &crate::shrink::Small) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{}.json", orig.seed));
    let names: Vec<String> = s
        .sc
        .plan
        .decisions
        .iter()
        .map(|d| {
            let n = K::ALL.iter().find(|(k, _)| *k as u8 == d.kind).map(|(_, n)| *n).unwrap_or("?");
            let who = if d.scope >= 100_000 { format!("connection {}", d.scope) } else { format!("thread {}", d.scope) };
            format!("{who}: {n} number {} takes value {}", d.n, d.v)
        })
        .collect();
    let v = json!({
        "property": prop,
        "rule": s.v.rule,
        "violation": s.v.msg,
        "seed": orig.seed,
        "minimised": s.steps,
        "arguments": s.sc.args().join(" "),
        "schedule_and_faults": names,
        "log_hash": format!("{:016x}", s.hash),
        "trace": s.log.lines().filter(|l| { let e = l.split(' ').nth(2).unwrap_or(""); e != "CLK" && e != "HEAP" }).take(400).map(|l| cut(l, 200)).collect::<Vec<_>>(),
        "program": s.sc.prog.render(),
        "scenario": s.sc,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
    p
}

pub fn replay(env: &Env, file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let sc: Scenario = match serde_json::from_value(v["scenario"].clone()) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let slot = match Slot::new(env, 0) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    match run::run(env, &slot, &sc) {
        Ok(o) => {
            let (vs, _) = crate::check::check(&sc, &o);
            let hash = format!("{:016x}", crate::log_hash(&o.log));
            println!("log {hash} ({})", if v["log_hash"] == json!(hash) { "the recorded execution" } else { "differs from the recorded execution" });
            let r = crate::relevant(&prop, &vs);
            for v in &r {
                println!("{}: {}", v.rule, v.msg);
            }
            if r.is_empty() {
                println!("{prop} holds in this execution");
                0
            } else {
                println!("VIOLATION property={prop} replay={file}");
                1
            }
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}
