#![allow(dead_code)]
//! amsim check PROP | replay FILE | run PROP SEED | sweep PROP FROM COUNT
mod avro;
mod check;
mod gens;
mod hist;
mod model;
mod oracle;
mod report;
mod run;
mod scen;
mod shrink;

use check::{Facts, V};
use run::{Env, Outcome, Slot};
use scen::Scenario;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn root() -> PathBuf {
    std::env::var("AMSIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}
fn build() -> PathBuf {
    std::env::var("AMSIM_BUILD").map(PathBuf::from).unwrap_or_else(|_| root().join("build"))
}
fn make_env() -> Env {
    let tmp = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) && std::env::var("AMSIM_SHM").is_ok() { "/dev/shm" } else { "/tmp" };
    Env {
        bin: build().join("am/x86_64-unknown-linux-gnu/release/basjoofan"),
        shim: build().join("sim/release/libamsim_shim.so"),
        certs: root().join("certs"),
        base: PathBuf::from(format!("{tmp}/amsim-{}", std::process::id())),
        log_cap: 192 << 20,
    }
}

pub struct One {
    pub out: Outcome,
    pub vs: Vec<V>,
    pub f: Facts,
}

pub fn one(env: &Env, slot: &Slot, sc: &Scenario) -> Result<One, String> {
    let out = run::run(env, slot, sc)?;
    let (vs, f) = check::check(sc, &out);
    Ok(One { out, vs, f })
}

/// The violations of the property a scenario is about, without known ones.
pub fn relevant<'a>(prop: &str, vs: &'a [V]) -> Vec<&'a V> {
    vs.iter().filter(|v| v.props.iter().any(|p| *p == prop)).collect()
}

pub fn log_hash(log: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in report::norm(log).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn seed_of(base: u64, k: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(k) & ((1 << 52) - 1)
}

fn workers() -> usize {
    std::env::var("AMSIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16)
}

/// quick and thorough number of runs, and the wall-clock caps in seconds
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C09" | "C12" | "C17" | "C20" | "C21" => 2500,
        "C18" | "C19" | "C15" | "C07" => 4500,
        _ => 3500,
    };
    let scale = std::env::var("AMSIM_RUNS").ok().and_then(|x| x.parse::<u64>().ok());
    match (thorough, scale) {
        (_, Some(n)) => (n, 3600),
        (false, _) => (quick, 90),
        (true, _) => (quick * 15, 600),
    }
}

struct Known {
    prop: String,
    pat: String,
    text: String,
}
fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        // known: property=C99 match="part of the violation" what fails
        if let Some(r) = l.strip_prefix("known: property=") {
            let (prop, rest) = r.split_once(' ').unwrap_or((r, ""));
            if let Some(m) = rest.strip_prefix("match=\"") {
                if let Some((pat, what)) = m.split_once('"') {
                    v.push(Known { prop: prop.into(), pat: pat.into(), text: what.trim().into() });
                }
            }
        }
    }
    v
}

#[derive(Default)]
struct Agg {
    runs: u64,
    sim_ns: u128,
    hashes: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    kinds: BTreeMap<String, u64>,
    fired: u64,
    switches: u64,
    facts: BTreeMap<&'static str, u64>,
    ends: BTreeMap<String, u64>,
    errors: Vec<String>,
    samples: Vec<serde_json::Value>,
    growth: i64,
    max_gap: (u64, String, u64),
    max_end: u64,
    known: BTreeSet<String>,
    unconfirmed: u64,
}

impl Agg {
    fn add(&mut self, sc: &Scenario, o: &One) {
        let h = &o.out.hist;
        self.runs += 1;
        self.sim_ns += h.end_t.saturating_sub(proto::MONO_BASE) as u128;
        self.switches += h.switches;
        self.hashes.insert(h.sched_hash);
        let mut fired = 0;
        for (name, n) in report::faults(sc, h) {
            if report::is_fault(&name) {
                fired += n;
            }
            *self.kinds.entry(name).or_default() += n;
        }
        self.fired += fired;
        let f = &o.f;
        for (n, v) in [
            ("exchanges", f.exchanges),
            ("completed exchanges", f.done),
            ("failed exchanges", f.failed),
            ("exchanges with an unspecified answer", f.open),
            ("iterations", f.iterations),
            ("workers", f.workers),
            ("report blocks", f.blocks),
            ("records decoded", f.records),
            ("torn recordings", f.torn),
            ("input lines or source files", f.lines),
            ("races over several addresses", f.races),
            ("completed TLS exchanges", f.tls_done),
            ("runs killed", f.killed as u64),
            ("runs interrupted", f.sigint as u64),
        ] {
            *self.facts.entry(n).or_default() += v;
        }
        self.growth = self.growth.max(f.growth);
        if f.max_gap > self.max_gap.0 {
            self.max_gap = (f.max_gap, f.gap_at.clone(), sc.seed);
        }
        self.max_end = self.max_end.max(f.end_slack);
        *self.ends.entry(format!("{:?}", h.end.clone().unwrap_or(hist::End::Hang)).split('(').next().unwrap_or("").to_string()).or_default() += 1;
        if report::nontrivial(sc, o, fired) && self.nontrivial.insert(h.sched_hash) && self.samples.len() < 3 {
            self.samples.push(report::sample(sc, o));
        }
    }
}

fn check_cmd(prop: &str, thorough: bool, base: u64) -> i32 {
    let start = Instant::now();
    let env = make_env();
    let (runs, cap) = budget(prop, thorough);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let found: Mutex<Option<(u64, Scenario, One)>> = Mutex::new(None);
    let kn = known();
    let jobs = workers();
    std::thread::scope(|s| {
        for j in 0..jobs {
            let (env, next, stop, agg, found, kn) = (&env, &next, &stop, &agg, &found, &kn);
            s.spawn(move || {
                let slot = match Slot::new(env, j) {
                    Ok(s) => s,
                    Err(e) => {
                        agg.lock().unwrap().errors.push(e);
                        return;
                    }
                };
                loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed().as_secs() > cap {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= runs {
                        break;
                    }
                    let sc = gens::gen(prop, seed_of(base, k));
                    let r = one(env, &slot, &sc).or_else(|_| one(env, &slot, &sc));
                    let o = match r {
                        Ok(o) => o,
                        Err(e) => {
                            let mut a = agg.lock().unwrap();
                            a.errors.push(format!("seed {}: {e}", sc.seed));
                            if a.errors.len() > 20 {
                                stop.store(true, Ordering::SeqCst);
                            }
                            continue;
                        }
                    };
                    let mut bad = false;
                    for v in relevant(prop, &o.vs) {
                        match kn.iter().find(|x| x.prop == prop && format!("{}: {}", v.rule, v.msg).contains(&x.pat)) {
                            Some(x) => {
                                agg.lock().unwrap().known.insert(x.text.clone());
                            }
                            None => bad = true,
                        }
                    }
                    agg.lock().unwrap().add(&sc, &o);
                    if bad {
                        // the same seed must do the same again
                        let again = one(env, &slot, &sc);
                        let same = match &again {
                            Ok(x) => !relevant(prop, &x.vs).is_empty(),
                            Err(_) => false,
                        };
                        if !same {
                            agg.lock().unwrap().unconfirmed += 1;
                            continue;
                        }
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map(|x| k < x.0).unwrap_or(true) {
                            *f = Some((k, sc, o));
                        }
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let mut agg = agg.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let explored = start.elapsed().as_secs_f64();
    // the same seeds again, elsewhere: the logs must be the same to the byte
    let mut deterministic = 0;
    let mut differing = Vec::new();
    if found.is_none() {
        let n = if thorough { 40 } else { 12 };
        if let (Ok(a), Ok(b)) = (Slot::new(&env, 100), Slot::new(&env, 101)) {
            for k in 0..n {
                let sc = gens::gen(prop, seed_of(base, k * 17 % runs));
                if let (Ok(x), Ok(y)) = (run::run(&env, &a, &sc), run::run(&env, &b, &sc)) {
                    if report::norm(&x.log) == report::norm(&y.log) {
                        deterministic += 1;
                    } else {
                        differing.push(sc.seed);
                    }
                }
            }
        }
    }
    let mut code = 0;
    for t in &agg.known {
        println!("KNOWN-FINDING: property={prop} {t}");
    }
    let mut violations = 0;
    if let Some((_, sc, o)) = found {
        let v = relevant(prop, &o.vs)[0].clone();
        eprintln!("{prop}: seed {}: {}: {}", sc.seed, v.rule, v.msg);
        let small = shrink::shrink(&env, &sc, &o, prop, if thorough { 60 } else { 25 });
        let path = report::write_replay(prop, &sc, &small);
        eprintln!("{prop}: reduced to {} decisions: {}", small.sc.plan.decisions.len(), small.v.msg);
        println!("VIOLATION property={prop} replay={}", path.display());
        violations = 1;
        code = 1;
    } else if agg.errors.len() as u64 * 50 > agg.runs || agg.runs == 0 {
        for e in agg.errors.iter().take(5) {
            eprintln!("{prop}: {e}");
        }
        eprintln!("{prop}: the simulation itself failed");
        code = 2;
    }
    let _ = std::fs::remove_dir_all(&env.base);
    let wall = start.elapsed().as_secs_f64();
    report::evidence(prop, thorough, base, &agg_json(&mut agg, explored, deterministic, &differing), wall, violations);
    println!(
        "{prop}: {} runs, {} distinct, {} nontrivial, {:.0} s simulated, {:.1} s; errors {}, unconfirmed {}, differing {:?}",
        agg.runs,
        agg.hashes.len(),
        agg.nontrivial.len(),
        agg.sim_ns as f64 / 1e9,
        wall,
        agg.errors.len(),
        agg.unconfirmed,
        differing
    );
    code
}

fn agg_json(a: &mut Agg, explored: f64, det: u64, differing: &[u64]) -> serde_json::Value {
    let per_hour = (a.runs as f64 / explored.max(0.001) * 3600.0) as u64;
    let (fault, other): (Vec<_>, Vec<_>) = a.kinds.iter().partition(|(k, _)| report::is_fault(k));
    let obj = |v: &[(&String, &u64)]| serde_json::Value::Object(v.iter().map(|(k, n)| (k.to_string(), serde_json::json!(**n))).collect());
    serde_json::json!({
        "evaluations": a.runs,
        "distinct_nontrivial": a.nontrivial.len(),
        "samples": a.samples,
        "runs_per_hour": per_hour,
        "seeds_per_hour": per_hour,
        "simulated_seconds": (a.sim_ns / 1_000_000) as f64 / 1000.0,
        "faults_injected": obj(&fault),
        "other_choices": obj(&other),
        "context_switches": a.switches,
        "distinct_interleavings": a.hashes.len(),
        "interleaving_measure": "hash of the sequence of (thread, kind of event) of a run, scheduling points and clock reads left out",
        "observed": a.facts,
        "run_endings": a.ends,
        "same_seed_same_log": {"compared": det + differing.len() as u64, "equal": det, "differing_seeds": differing},
        "simulation_errors": a.errors.iter().take(5).collect::<Vec<_>>(),
        "simulation_error_count": a.errors.len(),
        "violations_not_reproduced": a.unconfirmed,
    })
}

fn sweep(prop: &str, from: u64, count: u64) {
    let env = make_env();
    let next = AtomicU64::new(from);
    let agg = Mutex::new(Agg::default());
    let rules: Mutex<BTreeMap<String, (u64, u64, String, BTreeSet<&'static str>)>> = Mutex::new(BTreeMap::new());
    let start = Instant::now();
    std::thread::scope(|s| {
        for j in 0..workers() {
            let (env, next, agg, rules) = (&env, &next, &agg, &rules);
            s.spawn(move || {
                let slot = Slot::new(env, j).unwrap();
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= from + count {
                        break;
                    }
                    let sc = gens::gen(prop, k);
                    match one(env, &slot, &sc) {
                        Ok(o) => {
                            for v in &o.vs {
                                let mut r = rules.lock().unwrap();
                                let e = r.entry(v.rule.to_string()).or_insert((0, k, v.msg.clone(), v.props.iter().copied().collect()));
                                e.0 += 1;
                                if k < e.1 {
                                    e.1 = k;
                                    e.2 = v.msg.clone();
                                }
                            }
                            agg.lock().unwrap().add(&sc, &o);
                        }
                        Err(e) => agg.lock().unwrap().errors.push(format!("seed {k}: {e}")),
                    }
                }
            });
        }
    });
    let a = agg.into_inner().unwrap();
    println!("== {prop}: {} runs {:.1} s, {} distinct, {} nontrivial, {:.0} s simulated", a.runs, start.elapsed().as_secs_f64(), a.hashes.len(), a.nontrivial.len(), a.sim_ns as f64 / 1e9);
    println!("   {:?}", a.facts);
    println!("   {:?} end slack {} ms, gap {:?}, growth {} KiB", a.ends, a.max_end / proto::MS, a.max_gap, a.growth >> 10);
    if std::env::var("AMSIM_KINDS").is_ok() {
        println!("   {:?}", a.kinds);
    }
    for e in a.errors.iter().take(5) {
        println!("   ERROR {e}");
    }
    for (r, (n, k, m, p)) in rules.into_inner().unwrap() {
        println!("   {n}x {r} {} seed {k}: {m}", p.into_iter().collect::<Vec<_>>().join(","));
    }
    let _ = std::fs::remove_dir_all(&env.base);
}

/// Runs every seed twice, in different slots and amid different load, and compares the logs.
fn same(prop: &str, from: u64, count: u64) -> u64 {
    let env = make_env();
    let next = AtomicU64::new(0);
    let hashes: Mutex<BTreeMap<u64, BTreeSet<u64>>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for j in 0..workers() {
            let (env, next, hashes) = (&env, &next, &hashes);
            s.spawn(move || {
                let slot = Slot::new(env, j).unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= 2 * count {
                        break;
                    }
                    let k = from + i % count;
                    if let Ok(o) = run::run(env, &slot, &gens::gen(prop, k)) {
                        hashes.lock().unwrap().entry(k).or_default().insert(log_hash(&o.log));
                    }
                }
            });
        }
    });
    let _ = std::fs::remove_dir_all(&env.base);
    let h = hashes.into_inner().unwrap();
    let bad: Vec<u64> = h.iter().filter(|x| x.1.len() > 1).map(|x| *x.0).collect();
    println!("{prop}: {} seeds run twice, {} differ {:?}", h.len(), bad.len(), &bad[..bad.len().min(10)]);
    bad.len() as u64
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: usize| a.get(k).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => {
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || arg(3) == "thorough";
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            check_cmd(arg(2), thorough, seed)
        }
        "replay" => {
            let env = make_env();
            let c = report::replay(&env, arg(2));
            let _ = std::fs::remove_dir_all(&env.base);
            c
        }
        "sweep" => {
            let props: Vec<String> = if arg(2) == "all" { gens::ALL.iter().map(|s| s.to_string()).collect() } else { arg(2).split(',').map(|s| s.to_string()).collect() };
            for p in props {
                sweep(&p, arg(3).parse().unwrap_or(0), arg(4).parse().unwrap_or(200));
            }
            0
        }
        "same" => {
            let props: Vec<String> = if arg(2) == "all" { gens::ALL.iter().map(|s| s.to_string()).collect() } else { arg(2).split(',').map(|s| s.to_string()).collect() };
            let mut bad = 0;
            for p in props {
                bad += same(&p, arg(3).parse().unwrap_or(0), arg(4).parse().unwrap_or(100));
            }
            (bad > 0) as i32
        }
        "run" => {
            let env = make_env();
            let slot = Slot::new(&env, 0).unwrap();
            let sc = gens::gen(arg(2), arg(3).parse().unwrap());
            match run::run(&env, &slot, &sc) {
                Ok(o) => {
                    let quiet = arg(4) == "-q";
                    if !quiet {
                        println!("{:?}\n{}", sc.args(), sc.prog.render());
                        println!("{}", o.log);
                        println!("{}\n{}", String::from_utf8_lossy(&o.hist.out), String::from_utf8_lossy(&o.hist.err));
                    }
                    println!("{:?} log {:016x}", o.hist.end, log_hash(&o.log));
                    let (vs, f) = check::check(&sc, &o);
                    println!("{:?}", f);
                    for v in vs {
                        println!("V {} {:?} {}", v.rule, v.props, v.msg);
                    }
                }
                Err(e) => println!("ERR {e}"),
            }
            drop(slot);
            let _ = std::fs::remove_dir_all(&env.base);
            0
        }
        _ => {
            eprintln!("usage: amsim check PROP | replay FILE | run PROP SEED | sweep PROP FROM COUNT");
            2
        }
    };
    std::process::exit(code);
}
