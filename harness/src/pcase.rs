//! Process-level cases: one run of the real program (or of a session sharing one codec
//! object) under the process simulator.
use crate::img::ImgSpec;
use crate::proc::*;
use crate::util::*;
use image::{DynamicImage, ImageOutputFormat, RgbImage};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::io::Cursor;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub struct FileSpec {
    /// the path as given on the command line
    pub arg: String,
    /// `png:<img>` `pngl:` `pnga:` `bmp:` `ppm:` `jpg:` `raw:`; `cut:<permille>:png:<img>`;
    /// `bits:<seed>:png:<img>`; `missing` `empty` `garbage:<seed>` `dir` `odd`
    pub kind: String,
}

impl FileSpec {
    pub fn img(&self) -> Option<(String, ImgSpec)> {
        let (f, s) = self.kind.split_once(':')?;
        if ["png", "pngl", "pnga", "pngla", "png16", "bmp", "ppm", "jpg", "gif", "tga", "tif", "raw"].contains(&f) { Some((f.into(), ImgSpec::parse(s)?)) } else { None }
    }
    pub fn path(&self) -> String { norm(&self.arg) }
    pub fn stem(&self) -> String {
        Path::new(&self.arg).file_name().map_or(String::new(), |f| {
            Path::new(f).file_stem().unwrap_or(f).to_string_lossy().into_owned()
        })
    }
    /// what stands for it in a row
    pub fn shown(&self) -> &str { if odd_bytes(&self.arg) { "???" } else { &self.arg } }
    /// output/<stem>.<ext>
    pub fn out(&self, ext: &str) -> String { format!("output/{}.{}", self.stem(), ext) }
}

/// Lexical normalisation relative to the scratch folder, as in sim.c
pub fn norm(p: &str) -> String {
    let p = p.strip_prefix("/proc/self/cwd/").unwrap_or(p);
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c { "" | "." => (), ".." if v.last().map_or(false, |l| *l != "..") => { v.pop(); } c => v.push(c) }
    }
    let j = v.join("/");
    if p.starts_with('/') { format!("/{j}") } else { j }
}

pub fn encode_img(fmt: &str, i: &ImgSpec) -> Vec<u8> {
    let rgb = i.build();
    if fmt == "raw" { return raw_bytes(&rgb) }
    let d = match fmt {
        "pngl" => DynamicImage::ImageLuma8(DynamicImage::ImageRgb8(rgb).to_luma8()),
        "pnga" => {
            let mut a = DynamicImage::ImageRgb8(rgb).to_rgba8();
            for (k, p) in a.pixels_mut().enumerate() { p.0[3] = (k * 37) as u8 }
            DynamicImage::ImageRgba8(a)
        }
        "pngla" => {
            let mut a = DynamicImage::ImageRgb8(rgb).to_luma_alpha8();
            for (k, p) in a.pixels_mut().enumerate() { p.0[1] = (k * 53) as u8 }
            DynamicImage::ImageLumaA8(a)
        }
        "png16" => {
            let mut a = DynamicImage::ImageRgb8(rgb).to_rgb16();
            for (k, p) in a.pixels_mut().enumerate() { for x in &mut p.0 { *x = (*x & 0xff00) | ((k * 101) & 0xff) as u16 } }
            DynamicImage::ImageRgb16(a)
        }
        _ => DynamicImage::ImageRgb8(rgb),
    };
    let f = match fmt {
        "bmp" => ImageOutputFormat::Bmp,
        "ppm" => ImageOutputFormat::Pnm(image::codecs::pnm::PnmSubtype::Pixmap(image::codecs::pnm::SampleEncoding::Binary)),
        "jpg" => ImageOutputFormat::Jpeg(90),
        "gif" => ImageOutputFormat::Gif,
        "tga" => ImageOutputFormat::Tga,
        "tif" => ImageOutputFormat::Tiff,
        _ => ImageOutputFormat::Png,
    };
    let mut c = Cursor::new(Vec::new());
    d.write_to(&mut c, f).expect("test image");
    c.into_inner()
}

pub fn raw_bytes(i: &RgbImage) -> Vec<u8> {
    let mut v = i.width().to_le_bytes().to_vec();
    v.extend_from_slice(&i.height().to_le_bytes());
    v.extend_from_slice(i.as_raw());
    v
}

#[derive(Clone)]
pub struct Content { pub bytes: Arc<Vec<u8>>, pub img: Option<Arc<RgbImage>> }

/// File contents by kind, and what solo runs gave (shared by all driver threads)
#[derive(Default)]
pub struct Memo {
    contents: Mutex<HashMap<String, Content>>,
    pub solo: Mutex<HashMap<String, Arc<Solo>>>,
}

#[derive(Clone, Debug)]
pub struct Solo { pub end: End, pub out: BTreeMap<String, Vec<u8>>, pub pos: u64, pub mem: u64 }

impl Memo {
    /// None: no file of that name
    pub fn content(&self, kind: &str, ext: &str) -> Option<Content> {
        if kind == "missing" || kind == "dir" || kind == "odd" { return None }
        let key = format!("{kind}|{ext}");
        if let Some(c) = self.contents.lock().unwrap().get(&key) { return Some(c.clone()) }
        let bytes = match kind.split_once(':') {
            None => vec![],
            Some(("garbage", s)) => { let mut r = Rng::new(s.parse().unwrap_or(0)); (0..r.range(1, 3000)).map(|_| r.next() as u8).collect() }
            Some(("cut", s)) => {
                let (p, s) = s.split_once(':').unwrap();
                let (f, i) = s.split_once(':').unwrap();
                let mut b = encode_img(f, &ImgSpec::parse(i).unwrap());
                b.truncate((b.len() as u64 * p.parse::<u64>().unwrap() / 1000) as usize);
                b
            }
            Some(("bits", s)) => {
                let (p, s) = s.split_once(':').unwrap();
                let (f, i) = s.split_once(':').unwrap();
                let mut b = encode_img(f, &ImgSpec::parse(i).unwrap());
                let mut r = Rng::new(p.parse().unwrap());
                for _ in 0..r.range(1, 4) { let k = r.below(b.len() as u64) as usize; b[k] ^= 1 << r.below(8) }
                b
            }
            Some(("text", s)) => unpct(s).into_bytes(),
            Some(("hex", s)) => unhex(s),
            Some((f, i)) => encode_img(f, &ImgSpec::parse(i).unwrap_or_else(|| panic!("bad image spec {i}"))),
        };
        // what a reader of this file sees: the format goes by the extension
        let img = image::ImageFormat::from_extension(ext)
            .and_then(|f| std::panic::catch_unwind(|| image::load_from_memory_with_format(&bytes, f).ok()).ok().flatten())
            .filter(|i| i.width() > 0 && i.height() > 0)
            .map(|i| Arc::new(i.to_rgb8()));
        let c = Content { bytes: Arc::new(bytes), img };
        self.contents.lock().unwrap().insert(key, c.clone());
        Some(c)
    }

    pub fn file(&self, f: &FileSpec) -> Option<Content> {
        let p = f.path();
        let ext = Path::new(&p).extension().map_or(String::new(), |e| e.to_string_lossy().into_owned());
        self.content(&f.kind, &ext)
    }

    pub fn image(&self, f: &FileSpec) -> Option<Arc<RgbImage>> { self.file(f).and_then(|c| c.img) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PCase {
    pub prop: String,
    /// bench, export or session
    pub mode: String,
    pub codec: String,
    pub files: Vec<FileSpec>,
    /// files that are there from earlier runs: path, kind
    pub stale: Vec<FileSpec>,
    pub outdir: bool,
    pub ops: Vec<String>,
    pub threads: u32,
    pub rng_seed: u64,
    pub sched: Sched,
    pub rules: Vec<Rule>,
    pub quota: u64,
    pub quota_back: u32,
    pub crash_pos: u64,
    pub step_cap: u64,
    /// live heap bytes before allocations fail, files open at once before opening fails (0: no limit)
    pub mem_cap: u64,
    pub fd_cap: u32,
    /// earlier runs in the same folder
    pub prior: Vec<PCase>,
}

pub const NO_QUOTA: u64 = u64::MAX;

pub fn rule_text(r: &Rule) -> String {
    format!("{}:{}:{}:{}:{}:{}", r.op, r.action, r.nth, r.count, r.arg, pct(&r.path))
}

pub fn rule_human(r: &Rule) -> String {
    let op: Vec<&str> = [(1, "open"), (2, "read"), (4, "write"), (8, "seek"), (16, "close"), (32, "meta"), (64, "futex-wait"), (128, "spawn"), (256, "stdout"), (512, "getrandom"), (1024, "sync"), (2048, "stderr")]
        .iter().filter(|o| r.op & o.0 != 0).map(|o| o.1).collect();
    let act = match r.action { ACT_ERR => format!("fails with errno {}", r.arg), ACT_SHORT => format!("transfers at most {}", r.arg), ACT_CRASH => "crashes the process before".into(),
        ACT_TORN => format!("is torn after {} bytes by a crash", r.arg), ACT_SPURIOUS => "wakes up for no reason".into(), _ => format!("stalls its thread for {}", r.arg) };
    format!("{}#{} x{} of {:?} {}", op.join("|"), r.nth, if r.count == u32::MAX { "all".into() } else { r.count.to_string() }, r.path, act)
}

impl PCase {
    pub fn kv(&self) -> Kv {
        let mut k = Kv::default();
        k.put("engine", "process");
        k.put("prop", &self.prop);
        k.put("mode", &self.mode);
        k.put("codec", &self.codec);
        for f in &self.files { k.put("file", format!("{} {}", pct(&f.arg), f.kind)) }
        for f in &self.stale { k.put("stale", format!("{} {}", pct(&f.arg), f.kind)) }
        k.put("outdir", self.outdir as u8);
        for o in &self.ops { k.put("op", o) }
        k.put("threads", self.threads);
        k.put("rng_seed", self.rng_seed);
        let s = &self.sched;
        k.put("sched", format!("{} {} {} {} {} {}", s.mode, s.seed, s.edge_mean, s.sys_num, s.depth, s.pct_len));
        if s.mode == 9 {
            k.put("decisions", s.decs.iter().map(|d| format!("{}:{}", d.0, d.1)).collect::<Vec<_>>().join(","));
        }
        for r in &self.rules { k.put("rule", rule_text(r)) }
        if self.quota != NO_QUOTA { k.put("quota", self.quota); k.put("quota_back", self.quota_back) }
        k.put("crash_pos", self.crash_pos);
        k.put("step_cap", self.step_cap);
        if self.mem_cap > 0 { k.put("mem_cap", self.mem_cap) }
        if self.fd_cap > 0 { k.put("fd_cap", self.fd_cap) }
        for p in &self.prior { k.put("prior", pct(&p.kv().text())) }
        k
    }
    pub fn parse(k: &Kv) -> PCase {
        let fs = |key: &str| k.all(key).filter_map(|l| l.split_once(' ')).map(|(a, b)| FileSpec { arg: unpct(a), kind: b.into() }).collect();
        let s: Vec<u64> = k.s("sched").split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        let g = |i: usize| s.get(i).cloned().unwrap_or(0);
        PCase {
            prop: k.s("prop"), mode: k.s("mode"), codec: k.s("codec"),
            files: fs("file"), stale: fs("stale"), outdir: k.u("outdir") == 1,
            ops: k.all("op").map(String::from).collect(),
            threads: k.u("threads") as u32, rng_seed: k.u("rng_seed"),
            sched: Sched {
                mode: g(0) as u32, seed: g(1), edge_mean: g(2), sys_num: g(3) as u32, depth: g(4) as u32, pct_len: g(5),
                decs: k.s("decisions").split(',').filter_map(|d| d.split_once(':')).map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0))).collect(),
            },
            rules: k.all("rule").filter_map(|l| {
                let v: Vec<_> = l.splitn(6, ':').collect();
                if v.len() != 6 { return None }
                Some(Rule { op: v[0].parse().ok()?, action: v[1].parse().ok()?, nth: v[2].parse().ok()?, count: v[3].parse().ok()?, arg: v[4].parse().ok()?, path: unpct(v[5]) })
            }).collect(),
            quota: k.get("quota").and_then(|q| q.parse().ok()).unwrap_or(NO_QUOTA),
            quota_back: k.u("quota_back") as u32,
            crash_pos: k.u("crash_pos"), step_cap: k.u("step_cap"),
            mem_cap: k.u("mem_cap"), fd_cap: k.u("fd_cap") as u32,
            prior: k.all("prior").map(|t| PCase::parse(&Kv::parse(&unpct(t)))).collect(),
        }
    }

    pub fn args(&self) -> Vec<String> {
        match self.mode.as_str() {
            "export" => std::iter::once("--special=hilbert".to_string()).chain(self.files.iter().map(|f| f.arg.clone())).collect(),
            "session" => {
                let mut v = vec!["--session".to_string(), self.codec.clone(), self.threads.to_string()];
                v.extend(self.ops.iter().cloned());
                v
            }
            _ => std::iter::once(format!("--codec={}", self.codec)).chain(self.files.iter().map(|f| f.arg.clone())).collect(),
        }
    }

    pub fn results(&self) -> String {
        let name = std::panic::catch_unwind(|| cniic::sim::codec(&self.codec).map(|c| c.name())).ok().flatten().unwrap_or_default();
        format!("output/{name}.csv")
    }

    pub fn bare(prop: &str, mode: &str, codec: &str) -> PCase {
        PCase {
            prop: prop.into(), mode: mode.into(), codec: codec.into(), files: vec![], stale: vec![], outdir: true, ops: vec![],
            threads: 1, rng_seed: 1, sched: Sched::default(), rules: vec![], quota: NO_QUOTA, quota_back: 0, crash_pos: 0, step_cap: 20_000_000_000,
            mem_cap: 0, fd_cap: 0, prior: vec![],
        }
    }
}

/* ---- running ---- */

pub type Tree = BTreeMap<String, Option<Vec<u8>>>; // None: folder

pub fn tree(root: &Path) -> Tree {
    fn rec(dir: &Path, pre: &str, t: &mut Tree) {
        let Ok(rd) = fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let n = format!("{}{}", pre, unos(e.file_name().as_encoded_bytes()));
            match e.file_type() {
                Ok(ft) if ft.is_dir() => { t.insert(n.clone(), None); rec(&e.path(), &format!("{n}/"), t) }
                Ok(ft) if ft.is_symlink() => { t.insert(n, Some(b"<link>".to_vec())); }
                _ => { t.insert(n, Some(fs::read(e.path()).unwrap_or_default())); }
            }
        }
    }
    let mut t = Tree::new();
    rec(root, "", &mut t);
    t
}

/// Only `out` of the last run and what it left; the ends of earlier ones for the statistics
pub struct Done { pub out: Outcome, pub prior: Vec<Outcome>, pub before: Tree, pub after: Tree }

impl Done {
    pub fn flags(&self, path: &str) -> u32 { self.out.paths.iter().find(|p| p.name == path).map_or(0, |p| p.flags) }
    pub fn bytes(&self, path: &str) -> Option<&[u8]> { self.after.get(path).and_then(|x| x.as_deref()) }
}

pub fn setup(c: &PCase, root: &Path, memo: &Memo) {
    if c.outdir { let _ = fs::create_dir_all(root.join("output")); }
    for f in c.files.iter().chain(&c.stale) {
        let p = root.join(os(norm(&f.arg).trim_start_matches('/')));
        if let Some(d) = p.parent() { let _ = fs::create_dir_all(d); }
        // folders mentioned in the path, so that "sub/../x" works
        let mut acc = root.to_path_buf();
        let comps: Vec<&str> = f.arg.strip_prefix("/proc/self/cwd/").unwrap_or(&f.arg).split('/').collect();
        for d in &comps[..comps.len() - 1] { acc.push(os(d)); if *d != ".." { let _ = fs::create_dir_all(&acc); } }
        if f.kind == "dir" { let _ = fs::create_dir_all(&p); }
        if let Some(x) = memo.file(f) {
            // files are decades old, or from the future: never of the moment the simulation happened to run
            let date = if c.rng_seed % 3 == 0 { 4_102_444_800 } else { 978_307_200 };
            let done = fs::write(&p, &*x.bytes).and_then(|_| fs::File::options().write(true).open(&p)?.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(date)));
            if let Err(e) = done { crate::harness_error(&format!("cannot write {p:?}: {e}")) }
        }
    }
}

/// Contents that are themselves results of a simulated process
fn resolve(c: &PCase, p: &Proc, memo: &Memo) {
    for f in &c.files {
        let Some(s) = f.kind.strip_prefix("stream:") else { continue };
        let key = format!("{}|{}", f.kind, "str");
        if memo.contents.lock().unwrap().contains_key(&key) { continue }
        let v: Vec<&str> = s.split('|').collect();
        let mut b = solo_op(p, memo, v[0], "e", &format!("raw:{}", v[1])).unwrap_or_default();
        if !b.is_empty() { b.remove(0); }
        for d in crate::case::dmg_parse(v[2]) { d.apply(&mut b, crate::case::header(v[0])) }
        memo.contents.lock().unwrap().insert(key, Content { bytes: Arc::new(b), img: None });
    }
}

pub fn run(c: &PCase, p: &Proc, memo: &Memo) -> Done {
    resolve(c, p, memo);
    p.clean();
    let go = |c: &PCase| p.run(&Plan {
        args: c.args(), threads: c.threads, rng_seed: c.rng_seed, sched: &c.sched, rules: &c.rules,
        quota: c.quota, quota_back: c.quota_back, crash_pos: c.crash_pos, step_cap: c.step_cap,
        mem_cap: c.mem_cap, fd_cap: c.fd_cap,
    });
    let mut prior = vec![];
    for q in &c.prior {
        setup(q, &p.root, memo);
        prior.push(go(q));
        // input files may be replaced, or vanish, between runs
        for f in &q.files { let _ = fs::remove_file(p.root.join(os(norm(&f.arg).trim_start_matches('/')))); let _ = fs::remove_dir(p.root.join(os(norm(&f.arg).trim_start_matches('/')))); }
    }
    setup(c, &p.root, memo);
    let before = tree(&p.root);
    let out = go(c);
    Done { out, prior, before, after: tree(&p.root) }
}

/// The same work for one file alone, one thread, no faults; memoised
pub fn solo(p: &Proc, memo: &Memo, c: &PCase) -> Arc<Solo> {
    let key = c.kv().text();
    if let Some(s) = memo.solo.lock().unwrap().get(&key) { return s.clone() }
    let d = run(c, p, memo);
    let out = d.after.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).filter(|(k, _)| k.starts_with("output/")).collect();
    let s = Arc::new(Solo { end: d.out.end, out, pos: d.out.pos, mem: d.out.mem_peak.saturating_sub(d.out.mem_base) });
    let mut m = memo.solo.lock().unwrap();
    if m.len() > 6000 { m.clear() }
    m.insert(key, s.clone());
    s
}

pub fn solo_bench(p: &Proc, memo: &Memo, codec: &str, f: &FileSpec) -> Arc<Solo> {
    let mut c = PCase::bare("solo", "bench", codec);
    // one run serves all files that differ only in the number in their name
    let plain = f.arg.strip_prefix('i').and_then(|n| n.split_once('.')).filter(|(n, e)| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()) && e.bytes().all(|b| b.is_ascii_lowercase()));
    let Some((n, e)) = plain.filter(|(n, _)| *n != "0") else {
        c.files = vec![f.clone()];
        return solo(p, memo, &c);
    };
    let (short, mine) = (format!("i0.{e}"), format!("i{n}."));
    c.files = vec![FileSpec { arg: short.clone(), kind: f.kind.clone() }];
    let s = solo(p, memo, &c);
    let out = s.out.iter().map(|(k, v)| {
        let name = k.strip_prefix("output/i0.").map_or(k.clone(), |x| format!("output/{mine}{x}"));
        let mut v = v.clone();
        if k.ends_with(".csv") {
            let row = format!("\n{short},").into_bytes();
            if let Some(i) = v.windows(row.len()).position(|w| w == row) { v.splice(i..i + row.len(), format!("\n{},", f.arg).into_bytes()); }
        }
        (name, v)
    }).collect();
    Arc::new(Solo { end: s.end.clone(), out, pos: s.pos, mem: s.mem })
}

/// Result bytes of one operation of a session run alone ('S'/'E'/'N' first); None if it died
pub fn solo_op(p: &Proc, memo: &Memo, codec: &str, op: &str, input: &str) -> Option<Vec<u8>> {
    let mut c = PCase::bare("solo", "session", codec);
    c.files = vec![FileSpec { arg: "in.raw".into(), kind: input.into() }];
    c.ops = vec![format!("0:{op}:in.raw:output/r")];
    let s = solo(p, memo, &c);
    if s.end == End::Exit(0) { s.out.get("output/r").cloned() } else { None }
}

/* ---- reading results ---- */

/// Complete CSV records and the unfinished rest
pub fn csv_records(b: &[u8]) -> (Vec<Vec<String>>, Vec<u8>) {
    let (mut recs, mut rec, mut field) = (vec![], vec![], vec![]);
    let (mut quoted, mut start, mut i) = (false, 0, 0);
    while i < b.len() {
        let c = b[i];
        if quoted {
            if c == b'"' {
                if b.get(i + 1) == Some(&b'"') { field.push(b'"'); i += 1 } else { quoted = false }
            } else { field.push(c) }
        } else {
            match c {
                b'"' if field.is_empty() => quoted = true,
                b',' => rec.push(String::from_utf8_lossy(&std::mem::take(&mut field)).into_owned()),
                b'\r' => (),
                b'\n' => {
                    rec.push(String::from_utf8_lossy(&std::mem::take(&mut field)).into_owned());
                    recs.push(std::mem::take(&mut rec));
                    start = i + 1;
                }
                c => field.push(c),
            }
        }
        i += 1;
    }
    (recs, b[start..].to_vec())
}
