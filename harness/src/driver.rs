//! Search, minimisation, replay and evidence.
use crate::case::Case;
use crate::cell::Cell;
use crate::exec::{Fail, Sim};
use crate::judge::Judge;
use crate::pcase::{self, Memo, PCase};
use crate::proc::*;
use crate::util::*;
use crate::{gen, harness_error, pgen};
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const CODEC_PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C09", "C10", "C11", "C15", "C16", "C18", "C25"];
const PROC_PROPS: &[&str] = &["C05", "C06", "C07", "C08", "C12", "C13", "C14", "C16", "C17", "C18", "C22", "C23", "C24"];
const WORKERS: usize = 8;

struct Budget { codec_runs: u64, proc_runs: u64, secs: u64 }

fn budget(prop: &str, deep: bool) -> Budget {
    let (c, p) = match prop {
        "C01" => (5000, 0), "C02" => (2400, 0), "C03" => (3000, 0), "C04" => (3000, 0), "C09" => (9000, 0),
        "C10" => (24000, 0), "C11" => (24000, 0), "C15" => (3000, 0), "C16" => (1200, 1500), "C18" => (3000, 1000),
        "C14" => (0, 8000), "C08" => (0, 8000), "C12" => (0, 9000), "C22" => (0, 5000), "C23" => (0, 700), "C25" => (2000, 0),
        _ => (0, 6000),
    };
    if deep { Budget { codec_runs: c * 20, proc_runs: p * 20, secs: 780 } } else { Budget { codec_runs: c, proc_runs: p, secs: 150 } }
}

fn env_u(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }
fn deep() -> bool { std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") }
fn seed() -> u64 { env_u("VERIF_SEED", 1) }
fn home() -> PathBuf {
    std::env::var("CNIIC_VERIF").map(PathBuf::from).unwrap_or_else(|_| {
        std::env::current_exe().unwrap().ancestors().nth(4).unwrap().to_path_buf()
    })
}

static BASE: Mutex<Option<PathBuf>> = Mutex::new(None);

fn scratch() -> PathBuf {
    let mut b = BASE.lock().unwrap();
    if let Some(p) = &*b { return p.clone() }
    let name = format!("cniic-dst-{}", std::process::id());
    let p = [PathBuf::from("/dev/shm"), std::env::temp_dir(), home().join("build")].iter()
        .map(|d| d.join(&name))
        .find(|d| fs::create_dir_all(d).is_ok() && fs::write(d.join("probe"), b"x").is_ok())
        .unwrap_or_else(|| { eprintln!("harness error: no scratch folder"); std::process::exit(3) });
    *b = Some(p.clone());
    p
}

pub fn cleanup() {
    if let Ok(mut b) = BASE.lock() {
        if let Some(p) = b.take() { let _ = fs::remove_dir_all(p); }
    }
}

fn replay_dir() -> PathBuf {
    let d = home().join("build/replays");
    let _ = fs::create_dir_all(&d);
    d
}

/* ---- known findings ---- */

fn known(prop: &str, msg: &str) -> Option<String> {
    let t = fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    let pre = format!("known: property={prop} match=");
    t.lines().filter_map(|l| l.strip_prefix(&pre)).filter_map(|l| l.split_once(" :: ")).find(|(m, _)| msg.contains(m)).map(|(_, d)| d.to_string())
}

/* ---- codec-level search ---- */

/// dst worker <prop> <seed> <tier> <k> <n> <runs> <secs> <folder>
pub fn worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, deep, k, step, runs, secs) = (n(1), a[2] == "thorough", n(3), n(4), n(5), n(6));
    let dir = Path::new(&a[7]);
    let t0 = Instant::now();
    let cell = Cell::new();
    let mut st = Stats::default();
    let mut out = String::new();
    let mut i = k;
    while i < runs {
        if t0.elapsed() > Duration::from_secs(secs) { st.add("not_run_for_lack_of_time", (runs - i + step - 1) / step); break }
        if dir.join("stop").exists() { break }
        let c = gen::gen(prop, seed, i, deep);
        let r = Sim { cell: &cell, st: &mut st, form: 0 }.exec(&c);
        st.add("runs", 1);
        st.add(&format!("codec:{}", c.codec.split('(').next().unwrap()), 1);
        st.max("pixels", c.imgs[0].pixels());
        if i % (runs / 4).max(1) == 0 { out.push_str(&format!("sample run {i}: {}\n", c.kv().text().replace('\n', "; "))) }
        if let Err(f) = r {
            if let Some(d) = known(prop, &f.msg) { out.push_str(&format!("known {d}\n")); i += step; continue }
            fs::write(dir.join("stop"), b"").ok();
            let (c, f) = minimise_codec(&cell, c, f);
            let path = replay_dir().join(format!("{prop}-{seed}-{i}.replay"));
            let mut kv = c.kv();
            kv.put("found", format!("seed {seed} run {i}"));
            kv.put("message", &f.msg);
            fs::write(&path, kv.text()).ok();
            out.push_str(&format!("violation {} {}\n", path.display(), f.msg.replace('\n', " ")));
            break;
        }
        i += step;
    }
    for e in cell.covered() { st.seen("edges", e) }
    for (k, v) in &st.counts { out.push_str(&format!("c {v} {k}\n")) }
    for (k, v) in &st.sets { out.push_str(&format!("s {k} {}\n", v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "))) }
    fs::write(dir.join(format!("out{k}")), out).expect("worker output");
    0
}

fn minimise_codec(cell: &Cell, mut c: Case, mut f: Fail) -> (Case, Fail) {
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut go = |c: &Case| Sim { cell, st: &mut st, form: 0 }.exec(c).err();
    // settle on the one cut that failed, at the end
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(25) {
        progress = false;
        for d in c.simpler() {
            if t0.elapsed() > Duration::from_secs(25) { break }
            if let Some(g) = go(&d) { c = d; f = g; progress = true; break }
        }
    }
    if c.prop == "C02" {
        if let Some(p) = f.cut {
            let d = Case { all_cuts: false, cuts: vec![p], ..c.clone() };
            if let Some(g) = go(&d) { c = d; f = g }
        }
    }
    (c, f)
}

struct Found { path: String, msg: String }

fn search_codec(prop: &str, b: &Budget, st: &mut Stats, samples: &mut Vec<String>, knowns: &mut BTreeSet<String>) -> Option<Found> {
    let dir = scratch().join("codec");
    fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    let tier = if deep() { "thorough" } else { "quick" };
    let kids: Vec<_> = (0..WORKERS).map(|k| {
        std::process::Command::new(&exe)
            .args(["worker", prop, &seed().to_string(), tier, &k.to_string(), &WORKERS.to_string(), &b.codec_runs.to_string(), &b.secs.to_string()])
            .arg(&dir)
            .env("CNIIC_VERIF", home())
            .stdout(std::process::Stdio::null())
            .spawn().unwrap_or_else(|e| harness_error(&format!("worker: {e}")))
    }).collect();
    let mut bad = None;
    for (k, mut c) in kids.into_iter().enumerate() {
        match c.wait() { Ok(s) if s.success() => (), s => bad = Some(format!("worker {k} ended with {s:?}")) }
    }
    let mut found: Option<Found> = None;
    for k in 0..WORKERS {
        let t = fs::read_to_string(dir.join(format!("out{k}"))).unwrap_or_default();
        for l in t.lines() {
            let mut it = l.splitn(3, ' ');
            match (it.next(), it.next(), it.next()) {
                (Some("c"), Some(v), Some(k)) => {
                    let v = v.parse().unwrap_or(0);
                    if let Some(k) = k.strip_prefix("max:") { st.max(k, v) } else { st.add(k, v) }
                }
                (Some("s"), Some(k), Some(v)) => for x in v.split(' ') { if let Ok(x) = u64::from_str_radix(x, 16) { st.seen(k, x) } },
                (Some("sample"), ..) => samples.push(l["sample ".len()..].to_string()),
                (Some("known"), ..) => { knowns.insert(l["known ".len()..].to_string()); }
                (Some("violation"), Some(p), Some(m)) => {
                    if found.is_none() { found = Some(Found { path: p.into(), msg: m.into() }) }
                }
                _ => (),
            }
        }
    }
    if let (Some(b), None) = (bad, &found) { harness_error(&b) }
    found
}

/* ---- process-level search ---- */

fn judge(c: &PCase, p: &Proc, memo: &Memo) -> (Result<(), String>, pcase::Done) {
    let d = pcase::run(c, p, memo);
    let r = Judge { c, d: &d, p2: p, memo }.check();
    (r, d)
}

fn note(st: &mut Stats, c: &PCase, d: &pcase::Done) {
    let o = &d.out;
    st.add("runs", 1);
    st.add("processes", 1);
    st.add("scheduling_points", o.syspoints);
    st.add("edges_executed", o.edges);
    st.add("switches", o.switches);
    st.add("simulated_ns", o.sim_ns);
    st.add("futex_waits", o.nfutex_wait);
    st.max("threads", o.nthreads as u64);
    st.max("runnable", o.max_runnable);
    st.max("edge_kinds", o.edge_kinds);
    st.seen("histories", o.hash);
    if o.switches > 1 { st.seen("interleavings", o.pair_hash) }
    st.add(["sched:default", "sched:random", "sched:priority", "sched:rare-edges"][c.sched.mode.min(3) as usize], 1);
    st.add(&format!("end:{}", match o.end { End::Exit(c) => format!("exit {c}"), End::Crashed => "crashed".into(), ref e => format!("{e:?}") }), 1);
    for (r, n) in c.rules.iter().zip(&o.fired) {
        if *n == 0 { st.add("rules_not_reached", 1); continue }
        let op = match r.op { OP_OPEN => "open", OP_READ => "read", OP_WRITE => "write", OP_SEEK => "seek", OP_FUTEX => "futex", OP_SPAWN => "spawn", OP_STDOUT => "stdout", 2048 => "stderr", _ => "io" };
        let act = match (r.action, r.arg) { (ACT_ERR, 4) => "eintr", (ACT_ERR, 28) => "enospc", (ACT_ERR, _) => "error", (ACT_SHORT, _) => "short", (ACT_CRASH, _) => "crash", (ACT_TORN, _) => "torn_crash", (ACT_SPURIOUS, _) => "spurious_wakeup", _ => "stall" };
        let place = if r.path.starts_with("output/") { if r.path.ends_with(".csv") { "_results" } else { "_output" } } else { "" };
        st.add(&format!("fault:{op}_{act}{place}"), *n as u64);
    }
    st.max("heap_bytes", o.mem_peak);
    st.max("files_open", o.fd_peak as u64);
    if o.mem_hits > 0 { st.add("fault:allocation_failure", o.mem_hits as u64) }
    if o.fd_hits > 0 { st.add("fault:descriptor_limit", o.fd_hits as u64) }
    for (q, o) in c.prior.iter().zip(&d.prior) {
        st.add("processes", 1);
        st.add("earlier_runs", 1);
        st.add(&format!("earlier_end:{}", match o.end { End::Exit(c) => format!("exit {c}"), End::Crashed => "crashed".into(), ref e => format!("{e:?}") }), 1);
        for (r, n) in q.rules.iter().zip(&o.fired) { if *n > 0 { st.add("fault:in_earlier_run", *n as u64); if r.action == ACT_TORN { st.add("fault:torn_crash_in_earlier_run", 1) } } }
        if o.quota_hits > 0 { st.add("fault:disk_full_in_earlier_run", o.quota_hits as u64) }
        if q.crash_pos > 0 && o.end == End::Crashed { st.add("fault:crash_at_step_in_earlier_run", 1) }
    }
    if o.quota_hits > 0 { st.add("fault:disk_full_quota", o.quota_hits as u64) }
    if c.crash_pos > 0 && o.end == End::Crashed { st.add("fault:crash_at_step", 1) }
    if !c.outdir { st.add("fault:no_output_folder", 1) }
    st.add(&format!("mode:{}", c.mode), 1);
    if c.mode == "bench" { st.add(&format!("codec:{}", c.codec.split('(').next().unwrap()), 1) }
}

fn search_proc(prop: &str, b: &Budget, st: &mut Stats, samples: &mut Vec<String>, knowns: &mut BTreeSet<String>) -> Option<Found> {
    let base = scratch();
    let memo = Memo::default();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    let found: Mutex<Option<(u64, PCase, String)>> = Mutex::new(None);
    let all: Mutex<(Stats, Vec<(u64, String)>, BTreeSet<String>)> = Mutex::new(Default::default());
    let (seed, base, memo_, found_, all_, next_, stop_) = (seed(), &base, &memo, &found, &all, &next, &stop);
    std::thread::scope(|s| {
        for k in 0..WORKERS {
            s.spawn(move || {
                let p = Proc::new(base, k);
                let mut st = Stats::default();
                let mut smp = vec![];
                let mut kn = BTreeSet::new();
                loop {
                    if stop_.load(SeqCst) { break }
                    let i = next_.fetch_add(1, SeqCst);
                    if i >= b.proc_runs { break }
                    if t0.elapsed() > Duration::from_secs(b.secs) { st.add("not_run_for_lack_of_time", 1); continue }
                    let c = pgen::gen(prop, seed, i, &p, memo_);
                    let (r, d) = judge(&c, &p, memo_);
                    note(&mut st, &c, &d);
                    if i % (b.proc_runs / 6).max(1) == 1 {
                        smp.push((i, format!("run {i}: {}; rules: {}; ended {:?} after {} steps, {} switches; fired {:?}", c.kv().text().replace('\n', "; "),
                            c.rules.iter().map(pcase::rule_human).collect::<Vec<_>>().join(" / "), d.out.end, d.out.pos, d.out.switches, d.out.fired)));
                    }
                    if i % 40 == 7 {
                        let d2 = pcase::run(&c, &p, memo_);
                        st.add("repeated_runs", 1);
                        if d2.out.hash != d.out.hash || d2.after != d.after { st.add("repeated_runs_that_differed", 1) }
                    }
                    if let Err(m) = r {
                        if let Some(d) = known(prop, &m) { kn.insert(d); continue }
                        stop_.store(true, SeqCst);
                        let mut f = found_.lock().unwrap();
                        if f.as_ref().map_or(true, |f| i < f.0) { *f = Some((i, c, m)) }
                        break;
                    }
                }
                let mut a = all_.lock().unwrap();
                a.0.merge(&st);
                a.1.extend(smp);
                a.2.extend(kn);
            });
        }
    });
    let (s, mut smp, kn) = all.into_inner().unwrap();
    st.merge(&s);
    smp.sort();
    samples.extend(smp.into_iter().map(|x| x.1));
    knowns.extend(kn);
    let (i, c, m) = found.into_inner().unwrap()?;
    let p = Proc::new(&scratch(), 90);
    let (c, m, hash) = minimise_proc(&p, &memo, c, m);
    let path = replay_dir().join(format!("{prop}-{seed}-{i}.replay"));
    let mut kv = c.kv();
    for r in &c.rules { kv.put("# rule", pcase::rule_human(r)) }
    kv.put("found", format!("seed {seed} run {i}"));
    kv.put("message", &m);
    kv.put("expect_hash", format!("{hash:x}"));
    let d = pcase::run(&c, &p, &memo);
    let mut text = kv.text();
    text.push_str(&format!("# ended {:?} after {} steps\n", d.out.end, d.out.pos));
    for l in &d.out.tail { text.push_str(&format!("# {l}\n")) }
    for l in d.out.stderr.lines().take(20) { text.push_str(&format!("# stderr: {l}\n")) }
    fs::write(&path, text).ok();
    Some(Found { path: path.display().to_string(), msg: m })
}

fn minimise_proc(p: &Proc, memo: &Memo, c: PCase, m: String) -> (PCase, String, u64) {
    let t0 = Instant::now();
    let late = |s| t0.elapsed() > Duration::from_secs(s);
    let mut best = (c, m);
    let fails = |c: &PCase| judge(c, p, memo).0.err();
    // the same schedule seed, or another one
    let retry = |c: &PCase| -> Option<(PCase, String)> {
        if let Some(m) = fails(c) { return Some((c.clone(), m)) }
        if c.sched.mode == 0 || c.sched.mode == 9 { return None }
        for k in 1..12u64 {
            let mut d = c.clone();
            d.sched.seed = mix2(c.sched.seed, k) >> 8;
            if let Some(m) = fails(&d) { return Some((d, m)) }
        }
        None
    };
    let mut progress = true;
    while progress && !late(30) {
        progress = false;
        for d in simpler(&best.0) {
            if late(30) { break }
            if let Some(x) = retry(&d) { best = x; progress = true; break }
        }
    }
    // turn the schedule into an explicit list of decisions and thin that out
    if best.0.sched.mode != 0 {
        let d = pcase::run(&best.0, p, memo);
        if !d.out.dec_overflow {
            let mut c = best.0.clone();
            c.sched = Sched { mode: 9, decs: d.out.decs.clone(), ..Sched::default() };
            if let Some(m) = fails(&c) {
                best = (c, m);
                let mut size = (best.0.sched.decs.len() / 2).max(1);
                while !late(45) && !best.0.sched.decs.is_empty() {
                    let mut any = false;
                    let mut at = 0;
                    while at < best.0.sched.decs.len() && !late(45) {
                        let mut c = best.0.clone();
                        let end = (at + size).min(c.sched.decs.len());
                        c.sched.decs.drain(at..end);
                        match fails(&c) { Some(m) => { best = (c, m); any = true } None => at = end }
                    }
                    if size == 1 && !any { break }
                    size = (size / 2).max(1);
                }
            }
        }
    }
    let hash = pcase::run(&best.0, p, memo).out.hash;
    (best.0, best.1, hash)
}

fn simpler(c: &PCase) -> Vec<PCase> {
    let mut v: Vec<PCase> = vec![];
    let mut add = |d: PCase| if d != *c { v.push(d) };
    if c.sched.mode != 0 { let mut d = c.clone(); d.sched = Sched::default(); add(d) }
    let n = c.files.len();
    if c.mode != "session" {
        if n > 3 { for h in [0..n / 2, n / 2..n] { let mut d = c.clone(); d.files.drain(h); add(d) } }
        for i in (0..n).rev() { let mut d = c.clone(); d.files.remove(i); add(d) }
    }
    for i in (0..c.ops.len()).rev() { let mut d = c.clone(); d.ops.remove(i); if !d.ops.is_empty() { add(d) } }
    if !c.stale.is_empty() {
        let mut d = c.clone(); d.stale.clear(); add(d);
        for i in 0..c.stale.len() { let mut d = c.clone(); d.stale.remove(i); add(d) }
    }
    for i in (0..c.rules.len()).rev() { let mut d = c.clone(); d.rules.remove(i); add(d) }
    for i in 0..c.prior.len() { let mut d = c.clone(); d.prior.remove(i); add(d) }
    for (i, q) in c.prior.iter().enumerate() { for s in simpler(q) { let mut d = c.clone(); d.prior[i] = s; add(d) } }
    if c.quota != pcase::NO_QUOTA { let mut d = c.clone(); d.quota = pcase::NO_QUOTA; add(d) }
    if c.quota_back != 0 { let mut d = c.clone(); d.quota_back = 0; add(d) }
    if c.crash_pos != 0 { let mut d = c.clone(); d.crash_pos = 0; add(d) }
    for t in [1, 2] { if c.threads > t && c.mode != "session" { let mut d = c.clone(); d.threads = t; add(d) } }
    for (i, f) in c.files.iter().enumerate() {
        if let Some((fmt, img)) = f.img() {
            for (fm, w, h) in [("bmp", 1, 1), ("bmp", 2, 2), ("bmp", img.w.min(6), img.h.min(6))] {
                if fmt == "raw" { continue }
                let class = if img.w == w && img.h == h { continue } else { img.class.clone() };
                let mut d = c.clone();
                d.files[i].kind = format!("{fm}:{class}:{w}x{h}:{}", img.seed);
                d.files[i].arg = format!("i{i}.{fm}");
                if d.files.iter().enumerate().any(|(j, g)| j != i && g.out("png") == d.files[i].out("png")) { d.files[i].arg = f.arg.clone() }
                let to = d.files[i].arg.clone();
                for q in d.prior.iter_mut() { for g in q.files.iter_mut() { if g.arg == f.arg { g.arg = to.clone() } } }
                // faults and leftovers follow the file
                for r in d.rules.iter_mut() {
                    if r.path == f.path() { r.path = d.files[i].path() }
                    if r.path == f.out("png") { r.path = d.files[i].out("png") }
                }
                add(d);
            }
        }
    }
    for i in 0..c.rules.len() {
        let r = &c.rules[i];
        if r.nth > 0 { let mut d = c.clone(); d.rules[i].nth = 0; add(d) }
        if r.count != 1 { let mut d = c.clone(); d.rules[i].count = 1; add(d) }
    }
    v
}

/* ---- commands ---- */

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let deep = deep();
    let b = budget(prop, deep);
    let b = Budget { codec_runs: env_u("DST_RUNS", b.codec_runs), proc_runs: env_u("DST_RUNS", b.proc_runs), secs: env_u("DST_SECS", b.secs) };
    println!("property {prop}: seed {} tier {}", seed(), if deep { "thorough" } else { "quick" });
    if !CODEC_PROPS.contains(&prop) && !PROC_PROPS.contains(&prop) { eprintln!("no check for {prop}"); return 2 }
    let mut st = Stats::default();
    let mut samples = vec![];
    let mut knowns = BTreeSet::new();
    let mut found = None;
    if CODEC_PROPS.contains(&prop) { found = search_codec(prop, &b, &mut st, &mut samples, &mut knowns) }
    if found.is_none() && PROC_PROPS.contains(&prop) { found = search_proc(prop, &b, &mut st, &mut samples, &mut knowns) }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, deep, &st, &samples, wall, found.is_some());
    for k in &knowns { println!("KNOWN-FINDING: property={prop} {k}") }
    println!("{} simulated runs ({} processes) in {:.1} s", st.get("runs"), st.get("processes"), wall);
    if st.get("not_run_for_lack_of_time") > 0 { println!("{} planned runs did not fit into the time", st.get("not_run_for_lack_of_time")) }
    if st.get("repeated_runs_that_differed") > 0 { println!("warning: {} of {} repeated runs differed", st.get("repeated_runs_that_differed"), st.get("repeated_runs")) }
    match found {
        None => 0,
        Some(f) => {
            println!("{}", f.msg);
            println!("VIOLATION property={prop} replay={}", f.path);
            1
        }
    }
}

fn evidence(prop: &str, deep: bool, st: &Stats, samples: &[String], wall: f64, violated: bool) {
    let codec = CODEC_PROPS.contains(&prop);
    let proc_ = PROC_PROPS.contains(&prop);
    let set = |k: &str| st.sets.get(k).map_or(0, |s| s.len() as u64);
    let distinct = set("states") + set("histories");
    let mut rule = String::from("Evaluations are simulated processes; a run is one case, of one or more processes. ");
    if codec { rule.push_str("Codec-level runs: (seed, run number) gives codec, image, process seeds, sink behaviour, cuts and damage; the first runs are fixed landmark images at format limits. Distinct and non-trivial: runs of the real encoder whose (codec, bytes stored, fault outcome) differ from all others of this run. ") }
    if proc_ { rule.push_str("Process-level runs: (seed, run number) gives command line, input files, leftovers, thread count, schedule and fault list for the whole program under the process simulator. Distinct and non-trivial: runs whose complete event history (every switch, system call, result and fault) has a hash no other run has.") }
    let faults: Vec<String> = st.counts.iter().filter(|(k, _)| k.starts_with("fault:")).map(|(k, v)| format!("{}: {}", json_str(&k[6..]), v)).collect();
    let other: Vec<String> = st.counts.iter().filter(|(k, _)| !k.starts_with("fault:") && *k != "runs" && *k != "processes").map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let smp: Vec<String> = samples.iter().take(8).map(|s| json_str(&s.chars().take(1500).collect::<String>())).collect();
    let per_hour = (st.get("runs") as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut cov = vec![
        format!("\"evaluations\": {}", st.get("processes")),
        format!("\"simulated_runs\": {}", st.get("runs")),
        format!("\"distinct_nontrivial\": {distinct}"),
        format!("\"rule\": {}", json_str(&rule)),
        format!("\"samples\": [{}]", smp.join(", ")),
        format!("\"simulated_runs_per_hour\": {per_hour}"),
        format!("\"faults_fired\": {{{}}}", faults.join(", ")),
        format!("\"counters\": {{{}}}", other.join(", ")),
    ];
    if codec { cov.push(format!("\"distinct_states\": {}, \"edges_of_the_code_reached\": {}", set("states"), set("edges"))) }
    if proc_ { cov.push(format!("\"distinct_histories\": {}, \"distinct_interleavings\": {}, \"interleaving_measure\": \"hash of the sequence of (code site, from thread, to thread) of all switches\", \"simulated_seconds\": {:.3}", set("histories"), set("interleavings"), st.get("simulated_ns") as f64 / 1e9)) }
    cov.push(format!("\"real_components\": {}", json_str("all of cniic (src/*.rs as compiled from /repo), image, csv, rayon, crossbeam, rand, regex, std")));
    cov.push(format!("\"simulated_components\": {}", json_str(if proc_ && codec {
        "codec-level: the writer, the stored bytes, getrandom, process lifetime; process-level: thread scheduling, futexes, clocks, getrandom, errors/shortness/crashes of all file calls (data itself goes to a scratch folder in memory)"
    } else if proc_ { "thread scheduling, futexes, clocks, getrandom, errors/shortness/crashes of all file calls, disk capacity (data itself goes to a scratch folder in memory)" }
    else { "the writer, the stored bytes, getrandom, process lifetime" })));
    let text = format!("{{\n \"property\": \"{prop}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        if deep { "thorough" } else { "quick" }, seed(), cov.join(",\n  "),
        json_str("sampled: seeds, images, schedules and fault sequences not drawn in this run are not covered; threads are preempted at intercepted calls and at basic-block edges of the cniic crate (sequentially consistent memory)"),
        wall, violated as u8);
    let dir = home().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{prop}.json")), text) { harness_error(&format!("evidence: {e}")) }
}

pub fn replay(file: &str) -> i32 {
    let t = fs::read_to_string(file).unwrap_or_else(|e| harness_error(&format!("{file}: {e}")));
    let kv = Kv::parse(&t);
    let prop = kv.s("prop");
    let msg = if kv.s("engine") == "codec" {
        let c = Case::parse(&kv);
        let cell = Cell::new();
        let mut st = Stats::default();
        Sim { cell: &cell, st: &mut st, form: 0 }.exec(&c).err().map(|f| f.msg)
    } else {
        let c = PCase::parse(&kv);
        let p = Proc::new(&scratch(), 0);
        let memo = Memo::default();
        let (r, d) = judge(&c, &p, &memo);
        let same = kv.s("expect_hash") == format!("{:x}", d.out.hash);
        println!("history {}", if same { "is exactly the recorded one" } else { "differs from the recorded one" });
        println!("ended {:?} after {} steps, {} switches", d.out.end, d.out.pos, d.out.switches);
        for l in &d.out.tail { println!("  {l}") }
        for l in d.out.stderr.lines().take(20) { println!("  stderr: {l}") }
        r.err()
    };
    match msg {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => { println!("no violation"); 0 }
    }
}

/// Many seeds, each run twice (in differently numbered scratch folders): identical histories?
pub fn selftest() -> i32 {
    let n = env_u("DST_RUNS", 600);
    let base = scratch();
    let memo = Memo::default();
    let bad = AtomicU64::new(0);
    let runs = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for k in 0..WORKERS {
            let (base, memo, bad, runs, next) = (&base, &memo, &bad, &runs, &next);
            s.spawn(move || {
                let (p, q) = (Proc::new(base, 2 * k), Proc::new(base, 1000 + 2 * k + 1));
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n { break }
                    let prop = PROC_PROPS[i as usize % PROC_PROPS.len()];
                    let c = pgen::gen(prop, seed() + i / 100, i, &p, memo);
                    let a = pcase::run(&c, &p, memo);
                    let b = pcase::run(&c, &q, memo);
                    runs.fetch_add(1, SeqCst);
                    if a.out.hash != b.out.hash || a.after != b.after || a.out.end != b.out.end || a.out.stderr != b.out.stderr {
                        if bad.fetch_add(1, SeqCst) < 5 { println!("run {i} ({prop}): {:?}/{:?} pos {}/{} hash {:x}/{:x} files {} stderr {}\n{}\n{}\n{}", a.out.end, b.out.end, a.out.pos, b.out.pos, a.out.hash, b.out.hash, a.after != b.after, a.out.stderr != b.out.stderr, c.kv().text(), a.out.stderr, b.out.stderr) }
                    }
                    // the recorded decisions give the same run again
                    if a.out.dec_overflow { continue }
                    let mut d = c.clone();
                    d.sched = Sched { mode: 9, decs: a.out.decs.clone(), ..Sched::default() };
                    let e = pcase::run(&d, &q, memo);
                    if e.out.hash != a.out.hash || e.after != a.after {
                        if bad.fetch_add(1, SeqCst) < 5 { println!("replay of run {i} ({prop}) by decisions differs: {:?}/{:?} pos {}/{} switches {}/{}\n{}", a.out.end, e.out.end, a.out.pos, e.out.pos, a.out.switches, e.out.switches, c.kv().text()) }
                    }
                }
            });
        }
    });
    println!("{} runs executed twice and replayed from their decisions, {} differences", runs.load(SeqCst), bad.load(SeqCst));
    (bad.load(SeqCst) > 0) as i32
}

/// Writes the (damaged) streams of a replay file next to it
pub fn dump() -> i32 {
    let f = std::env::args().nth(2).unwrap_or_default();
    let c = Case::parse(&Kv::parse(&fs::read_to_string(&f).unwrap()));
    let cell = Cell::new();
    let mut st = Stats::default();
    let b = Sim { cell: &cell, st: &mut st, form: c.form }.stream(&c.codec, c.seed_a, &crate::img::formed(c.imgs[0].build(), c.form)).unwrap_or_default();
    fs::write(format!("{f}.stream"), &b).unwrap();
    for (i, d) in c.dmgs.iter().enumerate() {
        let mut x = b.clone();
        for k in d { k.apply(&mut x, crate::case::header(&c.codec)) }
        fs::write(format!("{f}.damaged{i}"), &x).unwrap();
    }
    0
}

/// How long the landmark cases take
pub fn cost() -> i32 {
    let prop = std::env::args().nth(2).unwrap_or("C01".into());
    let n = std::env::args().nth(3).and_then(|n| n.parse().ok()).unwrap_or(60);
    let cell = Cell::new();
    for i in 0..n {
        let c = gen::gen(&prop, seed(), i, deep());
        let mut st = Stats::default();
        let t = Instant::now();
        let r = Sim { cell: &cell, st: &mut st, form: 0 }.exec(&c);
        println!("{i} {} {} {:.3}s max steps {} {:?}", c.codec, c.imgs[0].text(), t.elapsed().as_secs_f64(), st.get("max:steps_one_process"), r.err().map(|f| f.msg));
    }
    0
}
