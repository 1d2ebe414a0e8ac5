//! Runs one simulated process (the real program under sim.c) and collects what happened.
use crate::sys;
use crate::util::{os, unos};
use std::fs;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// --- mirror of sim.h ---
pub const MAX_RULES: usize = 48;
pub const MAX_DEC: usize = 32768;
const MAX_EV: usize = 2048;
const MAX_PATHS: usize = 1024;
const PATH_LEN: usize = 232;

pub const OP_OPEN: u32 = 1;
pub const OP_READ: u32 = 2;
pub const OP_WRITE: u32 = 4;
pub const OP_SEEK: u32 = 8;
pub const OP_CLOSE: u32 = 16;
#[allow(dead_code)]
pub const OP_META: u32 = 32;
pub const OP_FUTEX: u32 = 64;
pub const OP_SPAWN: u32 = 128;
pub const OP_STDOUT: u32 = 256;

pub const ACT_ERR: u32 = 1;
pub const ACT_SHORT: u32 = 2;
pub const ACT_CRASH: u32 = 3;
pub const ACT_TORN: u32 = 4;
pub const ACT_SPURIOUS: u32 = 5;
pub const ACT_STALL: u32 = 6;

pub const PF_WOPEN: u32 = 2;
pub const PF_WROTE: u32 = 4;
pub const PF_MUTATED: u32 = 8;
pub const PF_ESCAPE: u32 = 16;
pub const PF_HARD: u32 = 32;
pub const PF_SOFT: u32 = 64;

#[repr(C)]
#[derive(Clone, Copy)]
struct CRule { op: u32, action: u32, nth: u32, count: u32, arg: i64, seen: u32, fired: u32, path: [u8; PATH_LEN] }
#[repr(C)]
#[derive(Clone, Copy)]
struct CDec { pos: u64, tid: u32, pad: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
struct CEv { pos: u64, tid: u32, op: u32, ret: i64, path: u32, len: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
struct CPath { name: [u8; PATH_LEN], flags: u32, nwrites: u32, bytes: u64, nreads: u64 }
#[repr(C)]
struct Ctl {
    magic: u32, mode: u32,
    sched_seed: u64, rng_seed: u64,
    step_cap: u64, crash_pos: u64,
    edge_mean: u64,
    sys_num: u32, depth: u32,
    pct_len: u64,
    quota: u64,
    quota_back: u32, replay: u32,
    nrules: u32, ndec_in: u32,
    ncpu: u32, cov_on: u32,
    mem_cap: u64, fd_cap: u32, spare: u32,
    root: [u8; PATH_LEN],
    rules: [CRule; MAX_RULES],
    dec_in: [CDec; MAX_DEC],
    pos: u64, edges: u64, syspoints: u64, switches: u64, hash: u64, sim_ns: u64,
    ndec: u32, dec_overflow: u32,
    end: u32, nthreads: u32, npaths: u32, nev: u32, nescape: u32, quota_hits: u32,
    nfutex_wait: u64, nfutex_wake: u64, ngetrandom: u64, stdout_bytes: u64, max_runnable: u64,
    edge_kinds: u64, pair_hash: u64,
    mem_peak: u64, mem_base: u64, mem_hits: u32, fd_peak: u32, fd_hits: u32, spare2: u32,
    dec: [CDec; MAX_DEC],
    ev: [CEv; MAX_EV],
    paths: [CPath; MAX_PATHS],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub op: u32,
    pub action: u32,
    pub nth: u32,
    pub count: u32,
    pub arg: i64,
    pub path: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sched {
    pub mode: u32, // 0 default order, 1 random, 2 pct, 3 rare edges; 9 replay of `decs`
    pub seed: u64,
    pub edge_mean: u64,
    pub sys_num: u32,
    pub depth: u32,
    pub pct_len: u64,
    pub decs: Vec<(u64, u32)>,
}

impl Default for Sched {
    fn default() -> Self {
        Sched { mode: 0, seed: 0, edge_mean: 0, sys_num: 0, depth: 0, pct_len: 0, decs: vec![] }
    }
}

pub struct Plan<'a> {
    pub args: Vec<String>,
    pub threads: u32,
    pub rng_seed: u64,
    pub sched: &'a Sched,
    pub rules: &'a [Rule],
    pub quota: u64,
    pub quota_back: u32,
    pub crash_pos: u64,
    pub step_cap: u64,
    pub mem_cap: u64,
    pub fd_cap: u32,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Crashed,
    Deadlock,
    StepCap,
    Signal(i32),
    CpuLimit,
}

pub struct PathInfo {
    pub name: String,
    pub flags: u32,
    #[allow(dead_code)]
    pub nwrites: u32,
}

pub struct Outcome {
    pub end: End,
    pub stderr: String,
    pub paths: Vec<PathInfo>,
    pub fired: Vec<u32>,
    pub quota_hits: u32,
    pub pos: u64,
    pub syspoints: u64,
    pub edges: u64,
    pub switches: u64,
    pub hash: u64,
    pub pair_hash: u64,
    pub decs: Vec<(u64, u32)>,
    pub dec_overflow: bool,
    pub nthreads: u32,
    pub escapes: u32,
    pub sim_ns: u64,
    pub edge_kinds: u64,
    pub nfutex_wait: u64,
    pub max_runnable: u64,
    pub mem_peak: u64,
    pub mem_base: u64,
    pub mem_hits: u32,
    pub fd_peak: u32,
    pub fd_hits: u32,
    pub tail: Vec<String>,
}

/// One scratch folder plus one control block, reused for many runs
pub struct Proc {
    pub root: PathBuf,
    ctl_path: PathBuf,
    ctl: *mut Ctl,
    subject: PathBuf,
}
unsafe impl Send for Proc {}

fn put(dst: &mut [u8; PATH_LEN], s: &str) {
    let b = os(s);
    let b = b.as_encoded_bytes();
    let n = b.len().min(PATH_LEN - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    unos(&b[..n])
}

impl Proc {
    pub fn new(base: &Path, k: usize) -> Proc {
        let root = base.join(format!("w{k}"));
        let ctl_path = base.join(format!("ctl{k}"));
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&ctl_path).expect("ctl file");
        f.set_len(std::mem::size_of::<Ctl>() as u64).expect("ctl size");
        let p = unsafe { sys::mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), sys::PROT_RW, sys::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p as isize > 0, "mmap of the control block");
        let subject = std::env::current_exe().unwrap().parent().unwrap().join("subject");
        Proc { root, ctl_path, ctl: p as *mut Ctl, subject }
    }

    /// Empties the scratch folder
    pub fn clean(&self) {
        let _ = fs::remove_dir_all(&self.root);
        fs::create_dir_all(&self.root).expect("scratch folder");
    }

    pub fn run(&self, plan: &Plan) -> Outcome {
        let c = unsafe { &mut *self.ctl };
        // reset the outputs
        c.magic = 0x43534e49;
        c.pos = 0; c.edges = 0; c.syspoints = 0; c.switches = 0; c.hash = 0; c.sim_ns = 0;
        c.dec_overflow = 0; c.end = 0; c.nthreads = 0; c.nescape = 0; c.quota_hits = 0;
        c.nfutex_wait = 0; c.nfutex_wake = 0; c.ngetrandom = 0; c.stdout_bytes = 0; c.max_runnable = 0;
        c.edge_kinds = 0; c.pair_hash = 0; c.ndec = 0;
        c.mem_peak = 0; c.mem_base = 0; c.mem_hits = 0; c.fd_peak = 0; c.fd_hits = 0;
        c.mem_cap = plan.mem_cap;
        c.fd_cap = plan.fd_cap;
        for p in c.paths[..(c.npaths as usize).min(MAX_PATHS)].iter_mut() {
            *p = CPath { name: [0; PATH_LEN], flags: 0, nwrites: 0, bytes: 0, nreads: 0 };
        }
        c.npaths = 0; c.nev = 0;
        // inputs
        c.mode = if plan.sched.mode == 9 { 0 } else { plan.sched.mode };
        c.replay = (plan.sched.mode == 9) as u32;
        c.sched_seed = plan.sched.seed;
        c.rng_seed = plan.rng_seed;
        c.step_cap = plan.step_cap;
        c.crash_pos = plan.crash_pos;
        c.edge_mean = plan.sched.edge_mean;
        c.sys_num = plan.sched.sys_num;
        c.depth = plan.sched.depth;
        c.pct_len = plan.sched.pct_len;
        c.quota = plan.quota;
        c.quota_back = plan.quota_back;
        // as many processors as worker threads, fewer or more
        let (ncpu, env) = match plan.rng_seed % 8 {
            _ if plan.fd_cap > 0 => (plan.threads, true),
            0 | 1 => (plan.threads, false),
            2..=4 => (plan.threads, true),
            5 => (1, true),
            6 => (plan.threads * 2, true),
            _ => (16, true),
        };
        c.ncpu = ncpu;
        c.nrules = plan.rules.len().min(MAX_RULES) as u32;
        for (i, r) in plan.rules.iter().take(MAX_RULES).enumerate() {
            c.rules[i] = CRule { op: r.op, action: r.action, nth: r.nth, count: r.count, arg: r.arg, seen: 0, fired: 0, path: [0; PATH_LEN] };
            put(&mut c.rules[i].path, &r.path);
        }
        c.ndec_in = plan.sched.decs.len().min(MAX_DEC) as u32;
        for (i, d) in plan.sched.decs.iter().take(MAX_DEC).enumerate() {
            c.dec_in[i] = CDec { pos: d.0, tid: d.1, pad: 0 };
        }
        put(&mut c.root, self.root.to_str().unwrap());

        let err_path = self.ctl_path.with_extension("err");
        let err = fs::File::create(&err_path).expect("stderr file");
        let status = Command::new(&self.subject)
            .args(plan.args.iter().map(|a| os(a)))
            .env_clear()
            .env("SIM_CTL", &self.ctl_path)
            .envs(env.then(|| ("RAYON_NUM_THREADS", plan.threads.to_string())))
            .current_dir(&self.root)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .status()
            .unwrap_or_else(|e| crate::harness_error(&format!("cannot start {:?}: {e}", self.subject)));
        let stderr = String::from_utf8_lossy(&fs::read(&err_path).unwrap_or_default()).into_owned();
        use std::os::unix::process::ExitStatusExt;
        let end = match (c.end, status.code(), status.signal()) {
            (1, Some(97), _) => End::Crashed,
            (2, Some(98), _) => End::Deadlock,
            (3, Some(99), _) => End::StepCap,
            (_, Some(c), _) if (120..=123).contains(&c) => crate::harness_error(&format!("simulator could not start ({c})")),
            (_, Some(c), _) => End::Exit(c),
            (_, _, Some(24)) => End::CpuLimit,
            (_, _, Some(14)) => crate::harness_error("a simulated process made no progress in real time (simulator stuck)"),
            (_, _, Some(s)) => End::Signal(s),
            _ => End::Signal(0),
        };
        let ev_name = |p: u32| cstr(&c.paths[(p as usize).min(MAX_PATHS - 1)].name);
        let nev = c.nev as usize;
        let tail = (nev.saturating_sub(40.min(MAX_EV))..nev)
            .map(|i| {
                let e = &c.ev[i % MAX_EV];
                let op = match e.op { 1 => "open", 2 => "read", 4 => "write", 8 => "seek", 16 => "close", 32 => "meta", 1024 => "sync", _ => "?" };
                format!("pos {} thread {} {} {} len {} -> {}", e.pos, e.tid, op, ev_name(e.path), e.len, e.ret)
            })
            .collect();
        Outcome {
            end,
            stderr,
            paths: c.paths[..(c.npaths as usize).min(MAX_PATHS)].iter()
                .map(|p| PathInfo { name: cstr(&p.name), flags: p.flags, nwrites: p.nwrites })
                .collect(),
            fired: c.rules[..c.nrules as usize].iter().map(|r| r.fired).collect(),
            quota_hits: c.quota_hits,
            pos: c.pos, syspoints: c.syspoints, edges: c.edges, switches: c.switches,
            hash: c.hash, pair_hash: c.pair_hash,
            decs: c.dec[..(c.ndec as usize).min(MAX_DEC)].iter().map(|d| (d.pos, d.tid)).collect(),
            dec_overflow: c.dec_overflow != 0,
            nthreads: c.nthreads,
            escapes: c.nescape,
            sim_ns: c.sim_ns,
            edge_kinds: c.edge_kinds,
            nfutex_wait: c.nfutex_wait,
            max_runnable: c.max_runnable,
            mem_peak: c.mem_peak, mem_base: c.mem_base, mem_hits: c.mem_hits, fd_peak: c.fd_peak, fd_hits: c.fd_hits,
            tail,
        }
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        unsafe { sys::munmap(self.ctl as *mut _, std::mem::size_of::<Ctl>()); }
        let _ = fs::remove_dir_all(&self.root);
        let _ = fs::remove_file(&self.ctl_path);
        let _ = fs::remove_file(self.ctl_path.with_extension("err"));
    }
}
