//! Runs one scenario in a fresh process under the simulator.
use crate::hist::{self, End, Hist};
use crate::scen::Scenario;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Env {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub certs: PathBuf,
    pub base: PathBuf,
    pub log_cap: usize,
}

pub struct Outcome {
    pub hist: Hist,
    pub log: String,
    /// recording files: name -> content
    pub files: Vec<(String, Vec<u8>)>,
}

fn memfd(name: &str) -> Result<OwnedFd, String> {
    let c = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        return Err("memfd".into());
    }
    Ok(unsafe { OwnedFd::from_raw_fd(fd) })
}

pub struct Slot {
    pub dir: PathBuf,
    log: OwnedFd,
    map: *mut u8,
    cap: usize,
}
unsafe impl Send for Slot {}

impl Slot {
    pub fn new(env: &Env, k: usize) -> Result<Slot, String> {
        let dir = env.base.join(format!("s{:03}", k));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let log = memfd("amsim-log")?;
        let cap = env.log_cap;
        unsafe {
            if libc::ftruncate(log.as_raw_fd(), cap as i64) != 0 {
                return Err("ftruncate".into());
            }
            let map = libc::mmap(std::ptr::null_mut(), cap, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, log.as_raw_fd(), 0);
            if map == libc::MAP_FAILED {
                return Err("mmap".into());
            }
            Ok(Slot { dir, log, map: map as *mut u8, cap })
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.cap);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn run(env: &Env, slot: &Slot, sc: &Scenario) -> Result<Outcome, String> {
    let root = slot.dir.join("w");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).map_err(|e| format!("scratch: {e}"))?;
    if sc.record {
        std::fs::create_dir_all(root.join("rec")).map_err(|e| e.to_string())?;
    }
    for d in &sc.dirs {
        std::fs::create_dir_all(root.join(d)).map_err(|e| e.to_string())?;
    }
    for (name, data) in sc.all_files() {
        let p = root.join(&name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
        }
        std::fs::write(p, data).map_err(|e| e.to_string())?;
    }
    for (name, target) in &sc.links {
        let p = root.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
        }
        std::os::unix::fs::symlink(target, p).map_err(|e| e.to_string())?;
    }
    let mut plan = sc.full_plan();
    plan.root = root.to_string_lossy().to_string();
    plan.certs = env.certs.to_string_lossy().to_string();
    let text = serde_json::to_vec(&plan).map_err(|e| e.to_string())?;
    let pfd = memfd("amsim-plan")?;
    unsafe {
        let mut at = 0;
        while at < text.len() {
            let n = libc::write(pfd.as_raw_fd(), text[at..].as_ptr() as *const _, text.len() - at);
            if n <= 0 {
                return Err("plan".into());
            }
            at += n as usize;
        }
        // the log starts empty
        std::ptr::write_bytes(slot.map, 0, 16);
    }
    let (p, l) = (pfd.as_raw_fd(), slot.log.as_raw_fd());
    let mut cmd = Command::new(&env.bin);
    cmd.args(sc.args())
        .current_dir(&root)
        .env_clear()
        .env("LD_PRELOAD", &env.shim)
        .env("AMSIM_PLAN_FD", "198")
        .env("AMSIM_LOG_FD", "199")
        .env("SSL_CERT_FILE", env.certs.join("ca.pem"))
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    for (a, b) in &sc.env() {
        cmd.env(a, b);
    }
    let cpu = sc.cpu_limit;
    unsafe {
        cmd.pre_exec(move || {
            libc::personality(libc::ADDR_NO_RANDOMIZE as u64);
            let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let mem = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            if libc::dup2(p, 198) < 0 || libc::dup2(l, 199) < 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let mut child = cmd.spawn().map_err(|e| format!("spawn: {e}"))?;
    drop(pfd);
    let pidfd = unsafe { libc::syscall(libc::SYS_pidfd_open, child.id() as i64, 0) } as i32;
    let mut hang = false;
    if pidfd >= 0 {
        let mut pf = libc::pollfd { fd: pidfd, events: libc::POLLIN, revents: 0 };
        let start = std::time::Instant::now();
        loop {
            let n = unsafe { libc::poll(&mut pf, 1, 1000) };
            if n > 0 {
                break;
            }
            if start.elapsed().as_secs() > 90 {
                hang = true;
                let _ = child.kill();
                break;
            }
        }
        unsafe { libc::close(pidfd) };
    }
    let status = child.wait().map_err(|e| e.to_string())?;
    let (log, overflow) = unsafe {
        let len = *(slot.map as *const u64) as usize;
        let over = *slot.map.add(8) != 0;
        let bytes = std::slice::from_raw_parts(slot.map.add(16), len.min(slot.cap - 16));
        (String::from_utf8_lossy(bytes).to_string(), over)
    };
    let mut h = hist::parse(&log);
    if overflow {
        return Err("log overflow".into());
    }
    if let Some(x) = &h.harness {
        return Err(format!("harness: {x}"));
    }
    if hang {
        return Err(format!("wall clock watchdog fired; last log line: {}", log.lines().last().unwrap_or("")));
    }
    match status.signal() {
        Some(sig) if sig == libc::SIGXCPU || (sig == libc::SIGKILL && h.end.is_none()) => h.end = Some(End::Hang),
        Some(sig) => h.end = Some(End::Signal(sig)),
        None => {
            let code = status.code().unwrap_or(0);
            match &h.end {
                Some(End::Exit(c)) if *c == code => {}
                Some(End::Deadlock) | Some(End::Livelock(_)) | Some(End::Killed) | Some(End::Sigint) => {}
                None if code != 99 && log.is_empty() => return Err(format!("the simulator did not start (exit code {code})")),
                None if code != 99 => h.end = Some(End::Exit(code)),
                other => return Err(format!("inconsistent end: {:?}, exit code {}", other, code)),
            }
        }
    }
    let mut files = Vec::new();
    if let Some(r) = &sc.record_dir() {
        collect(&root.join(r), &mut files);
    }
    Ok(Outcome { hist: h, log, files })
}

fn collect(dir: &Path, out: &mut Vec<(String, Vec<u8>)>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.path().is_file() {
                if let Ok(d) = std::fs::read(e.path()) {
                    out.push((e.file_name().to_string_lossy().to_string(), d));
                }
            }
        }
    }
    out.sort();
}
