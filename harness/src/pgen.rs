//! From (property, seed, run number) to a process-level case.
use crate::case::Dmg;
use crate::img::ImgSpec;
use crate::pcase::*;
use crate::proc::*;
use crate::util::*;

const EIO: i64 = 5;
const ENOSPC: i64 = 28;
const EINTR: i64 = 4;
const FOREVER: u32 = u32::MAX;

/// Images come from a limited pool, so that what they give alone is computed once
fn pool(seed: u64, j: u64) -> (String, ImgSpec) {
    let mut r = Rng::new(mix2(seed ^ 0xf00d, j));
    let fmt = *r.pick(&["png", "png", "png", "png", "bmp", "ppm", "jpg", "pngl", "pnga", "pngla", "png16", "gif", "tga", "tif"]);
    let px = if j % 8 == 0 { 2500 } else { 500 };
    (fmt.into(), ImgSpec::any(&mut r, px))
}

/// Larger ones: several writes per export, errors that are tiny on average
fn large(seed: u64, j: u64) -> (String, ImgSpec) {
    let mut r = Rng::new(mix2(seed ^ 0xb16, j));
    let class = if j % 2 == 0 { *r.pick(&["offby", "offby", "offby", "sparse", "dither", "near"]) } else { *r.pick(crate::img::CLASSES) };
    let (w, h) = match j % 4 {
        0 => (r.range(40, 130), r.range(40, 90)),
        1 => ((1 << r.range(3, 7)) + 1, r.range(20, 40)),
        2 => (r.range(1, 2), r.range(600, 1600)),
        _ => (r.range(600, 1600), r.range(1, 2)),
    };
    (r.pick(&["png", "png", "bmp", "png16", "ppm"]).to_string(), ImgSpec::new(class, w as u32, h as u32, r.below(1 << 32)))
}

fn ext(fmt: &str) -> &str { match fmt { "pngl" | "pnga" | "pngla" | "png16" => "png", f => f } }

fn name(r: &mut Rng, i: usize, ext: &str, long: bool) -> String {
    if long { return format!("{}{i}.{ext}", "long name ".repeat(16).trim_end()).replace("e ", ["e_", "e,", "e "][i % 3]) }
    match r.below(20) {
        0 => format!("with space {i}.{ext}"),
        1 => format!("comma,{i}.{ext}"),
        2 => format!("quote\"{i}.{ext}"),
        3 => format!("ünï→{i}.{ext}"),
        4 => format!("sub/dir/i{i}.{ext}"),
        5 => format!("./i{i}.{ext}"),
        6 => format!("sub/../i{i}.{ext}"),
        7 => format!("/proc/self/cwd/i{i}.{ext}"),
        8 => format!("a.b.{i}.{ext}"),
        9 => format!(".hid{i}.{ext}"),
        10 => format!("I{i}.{}", ext.to_uppercase()),
        11 => match r.below(3) { 0 => format!("sub//i{i}.{ext}"), 1 => format!("sub/./i{i}.{ext}"), _ => format!("sub/i{i}.{ext}") },
        12 => match r.below(6) { 5 => format!("{}i{i}.{ext}", format!("{}/", "y".repeat(190)).repeat(6)), 4 => format!("lat\u{f7e9}in {i}.{ext}"), 0 => format!("two\nlines {i}.{ext}"), 1 => format!(" blank {i}.{ext}"), 2 => format!("back\\slash{i}.{ext}"), _ => format!("semi;tab\t'{i}.{ext}") },
        _ => format!("i{i}.{ext}"),
    }
}

fn good(r: &mut Rng, seed: u64, i: usize, long: bool) -> FileSpec {
    let (fmt, img) = pool(seed, r.below(56));
    FileSpec { arg: name(r, i, ext(&fmt), long), kind: format!("{fmt}:{}", img.text()) }
}

fn good_large(r: &mut Rng, seed: u64, i: usize) -> FileSpec {
    let (fmt, img) = large(seed, r.below(24));
    FileSpec { arg: name(r, i, ext(&fmt), false), kind: format!("{fmt}:{}", img.text()) }
}

fn bad(r: &mut Rng, seed: u64, i: usize) -> FileSpec {
    let (fmt, img) = pool(seed, r.below(56));
    let fmt = if ["jpg", "gif", "tga", "tif"].contains(&&fmt[..]) { "png".to_string() } else { fmt };
    let e = ext(&fmt).to_string();
    if r.below(9) == 0 { return FileSpec { arg: r.pick(&["..", ".", "", "sub/..", "./.", "sub/"]).to_string(), kind: "odd".into() } }
    let kind = match r.below(7) {
        0 => "missing".into(),
        6 => return FileSpec { arg: name(r, i, "ppm", false), kind: format!("text:{}", pct(r.pick(&["P6\n0 2\n255\n", "P6\n3 0\n255\n", "P5 0 0 255\n", "P6\n99999 99999\n255\nabc"]))) },
        1 => "empty".into(),
        2 => format!("garbage:{}", r.below(50)),
        3 => format!("cut:{}:{fmt}:{}", r.range(0, 99) * 10, img.text()),
        4 => "dir".into(),
        _ => format!("bits:{}:{fmt}:{}", r.below(8), img.text()),
    };
    let e = if r.below(10) == 0 { "txt".into() } else { e };
    FileSpec { arg: name(r, i, &e, false), kind }
}

fn bench_codec(r: &mut Rng, run: u64, lossy: bool) -> String {
    let lossy_one = |r: &mut Rng| match r.below(3) {
        0 => format!("hilbert(rle({}))", r.pick(&[1, 5, 20, 100])),
        1 => format!("cluster-colors({})", r.pick(&[1, 2, 4, 8])),
        _ => format!("voronoi({})", r.pick(&[1, 2, 4, 8])),
    };
    if lossy { return lossy_one(r) }
    match run % 8 { 6 | 7 => lossy_one(r), k => crate::gen::LOSSLESS[k as usize].to_string() }
}

fn sched(r: &mut Rng, est: u64) -> Sched {
    let seed = r.next() >> 8;
    match r.below(12) {
        0 => Sched::default(),
        1..=6 => {
            let sys_num = *r.pick(&[0, 32, 128, 400, 800, 1024]);
            let edge_mean = if r.below(3) == 0 { 0 } else { r.log(est.max(64)).max(16) };
            Sched { mode: 1, seed, edge_mean, sys_num, ..Sched::default() }
        }
        7..=9 => { let depth = r.range(1, 8) as u32; Sched { mode: 2, seed, depth, pct_len: est.max(100), ..Sched::default() } }
        _ => { let sys_num = *r.pick(&[32, 256]); Sched { mode: 3, seed, sys_num, ..Sched::default() } }
    }
}

fn rule(op: u32, action: u32, nth: u64, count: u32, arg: i64, path: &str) -> Rule {
    Rule { op, action, nth: nth as u32, count, arg, path: path.into() }
}

fn noise(r: &mut Rng, v: &mut Vec<Rule>) {
    if r.below(2) == 0 { v.push(rule(OP_FUTEX, ACT_SPURIOUS, r.below(12), r.range(1, 4) as u32, r.below(2) as i64, "")) }
    if r.below(3) == 0 { v.push(rule(OP_OPEN | OP_READ | OP_WRITE | OP_CLOSE, ACT_STALL, r.below(30), 1, r.log(300_000) as i64, "")) }
}

/// Which call: mostly early ones, where small files have all of theirs
fn nth(r: &mut Rng) -> u64 { match r.below(4) { 0 => r.below(8), 1 => r.below(3), _ => 0 } }
fn times(r: &mut Rng) -> u32 { match r.below(3) { 0 => FOREVER, 1 => 1, _ => r.range(1, 3) as u32 } }

fn write_err(r: &mut Rng) -> i64 { *r.pick(&[ENOSPC, ENOSPC, EIO, EIO, 122, 27, 11, 32]) }
fn open_err(r: &mut Rng) -> i64 { *r.pick(&[13, ENOSPC, 24, EIO, 30, 2, 21]) }

fn soft_writes(r: &mut Rng, path: &str, v: &mut Vec<Rule>) {
    if r.below(2) == 0 { v.push(rule(OP_WRITE, ACT_SHORT, nth(r), times(r), r.log(4000) as i64, path)) }
    if r.below(2) == 0 { v.push(rule(OP_WRITE, ACT_ERR, nth(r), r.range(1, 3) as u32, EINTR, path)) }
    if r.below(6) == 0 { v.push(rule(OP_OPEN, ACT_ERR, 0, 1, EINTR, path)) }
}

fn hard_writes(r: &mut Rng, path: &str, v: &mut Vec<Rule>) {
    match r.below(5) {
        0 => v.push(rule(OP_OPEN, ACT_ERR, nth(r) % 3, times(r), open_err(r), path)),
        _ => v.push(rule(OP_WRITE, ACT_ERR, nth(r), times(r), write_err(r), path)),
    }
    if r.below(3) == 0 { v.push(rule(OP_WRITE, ACT_SHORT, 0, FOREVER, r.log(2000) as i64, path)) }
}

fn input_faults(r: &mut Rng, path: &str, v: &mut Vec<Rule>) {
    match r.below(8) {
        0 => v.push(rule(OP_OPEN, ACT_ERR, 0, times(r), *r.pick(&[13, 24, EIO, 2, 116]), path)),
        1 | 2 | 3 => v.push(rule(OP_READ, ACT_ERR, nth(r), times(r), *r.pick(&[EIO, EIO, 116, 21]), path)),
        4 => v.push(rule(OP_SEEK, ACT_ERR, nth(r), times(r), EIO, path)),
        5 => v.push(rule(OP_READ, ACT_ERR, nth(r), 1, EINTR, path)),
        _ => v.push(rule(OP_READ, ACT_SHORT, nth(r), times(r), r.log(3000) as i64, path)),
    }
}

fn stale(r: &mut Rng, c: &mut PCase, seed: u64) {
    let put = |c: &mut PCase, a: String, k: String| c.stale.push(FileSpec { arg: a, kind: k });
    let old_rows = |r: &mut Rng| {
        let n = *r.pick(&[1, 3, 40, 400, 6000]);
        let mut s = String::from("name,compressed_size,compression_ratio,error\n");
        for i in 0..n { s.push_str(&format!("old{i}.png,{},{}.5,0.0\n", 100 + i, 3 + i)) }
        format!("text:{}", pct(&s))
    };
    if r.below(2) == 0 && c.mode == "bench" { let k = old_rows(r); let p = c.results(); put(c, p, k) }
    for f in c.files.clone() {
        if c.mode == "bench" && r.below(3) == 0 {
            let (_, i) = pool(seed, r.below(56));
            put(c, f.out("png"), format!("png:{}", i.text()));
        }
        if c.mode == "export" && r.below(3) == 0 {
            let k = old_rows(r);
            put(c, f.out(&format!("{}.hilbert.csv", r.pick(&["rect", "small", "large"]))), k);
        }
    }
    if r.below(2) == 0 { let k = old_rows(r); put(c, "output/hufman-old.csv".into(), k) }
    if r.below(2) == 0 { put(c, "bystander.txt".into(), "text:do%20not%20touch".into()) }
    if r.below(3) == 0 { put(c, "output/keep/me.png".into(), "text:x".into()) }
}

/// Rows do not tell names apart that are not unicode
fn one_odd(c: &mut PCase) {
    let mut v: Vec<_> = c.files.iter_mut().filter(|f| odd_bytes(&f.arg)).collect();
    for f in v.iter_mut().skip(1) { f.arg = f.arg.replace('\u{f7e9}', "") }
}

pub fn gen(prop: &str, seed: u64, run: u64, p: &Proc, memo: &Memo) -> PCase {
    let mut rng = Rng::new(mix2(mix2(seed ^ 0xbeef, hash_bytes(prop.as_bytes())), run));
    let r = &mut rng;
    if prop == "C16" { return session(seed, run, r) }
    if prop == "C18" { return places(seed, run, r) }
    if prop == "C22" { return history(seed, run, r, p, memo) }
    if prop == "C23" { return crowd(seed, run, r, p, memo) }
    let export = match prop { "C14" => true, "C17" if run < 17 => false, "C12" | "C17" | "C24" => r.below(4) == 0, _ => false };
    let mut c = PCase::bare(prop, if export { "export" } else { "bench" }, "hufman");
    let lossy = prop == "C08" && r.below(8) > 0;
    if !export { c.codec = bench_codec(r, run, lossy) } else { c.codec = "-".into() }
    c.rng_seed = r.next() >> 8;
    c.threads = *r.pick(&[1, 2, 2, 3, 3, 4, 4, 6, 8]);
    if r.below(40) == 0 { c.threads = r.range(9, 20) as u32 }
    if export { c.threads = 1 }
    let long = !export && r.below(8) == 0 && matches!(prop, "C05" | "C07" | "C13" | "C06" | "C17");
    let n = if long { r.range(36, 60) } else if export { r.range(1, 2) } else { match r.below(10) { 0 => 0, 1 => 1, 2..=4 => 2, 5..=7 => r.range(3, 5), _ => r.range(5, 14) } };
    let bad_share = match prop { "C06" => 40, "C05" | "C07" | "C17" | "C12" | "C13" => 10, "C14" => 4, "C24" if export => 0, "C24" => 8, _ => 5 };
    for i in 0..n as usize {
        let big = match prop { "C14" | "C24" if export => r.below(2) == 0, "C08" => lossy && n < 6 && !c.codec.starts_with("vor") && r.below(4) == 0, "C05" | "C07" | "C06" => c.codec != "zip(back)" && n < 4 && r.below(12) == 0, _ => false };
        let f = if r.below(100) < bad_share { bad(r, seed, i) } else if big { good_large(r, seed, i) } else { good(r, seed, i, long) };
        c.files.push(f);
    }
    // much alike
    if matches!(prop, "C05" | "C06" | "C17") && r.below(4) == 0 {
        for i in 1..c.files.len() {
            let Some((_, a)) = c.files[r.below(i as u64) as usize].img() else { continue };
            let Some((fmt, _)) = c.files[i].img() else { continue };
            if r.below(2) == 0 { c.files[i].kind = format!("{fmt}:{}", a.cousin(r).text()) }
        }
    }
    if long {
        // only small images, so that many rows stay affordable
        let (fmt, img) = ("bmp".to_string(), ImgSpec::new("noise", 3, 2, 5));
        for f in c.files.iter_mut().filter(|f| f.img().is_some()) {
            if r.below(6) > 0 { let e = f.arg.rfind('.').unwrap(); f.arg = format!("{}.bmp", &f.arg[..e]); f.kind = format!("{fmt}:{}", img.text()) }
        }
    }
    // the same name in several folders, or with several extensions
    if !export && matches!(prop, "C05" | "C06" | "C07" | "C12" | "C17") && c.files.len() > 1 && r.below(5) == 0 {
        for i in 1..c.files.len() {
            let k = r.below(i as u64) as usize;
            if r.below(3) == 0 || c.files[i].kind == "odd" || c.files[k].kind == "odd" { continue }
            let e = std::path::Path::new(&c.files[i].arg).extension().map_or(String::new(), |e| e.to_string_lossy().into_owned());
            c.files[i].arg = format!("d{i}/{}.{e}", c.files[k].stem());
            // ... of the same length and date, too
            let (Some(_), Some((_, a))) = (c.files[i].img(), c.files[k].img()) else { continue };
            if r.below(2) == 0 || c.files[k].arg.ends_with('/') { continue }
            let mut b = ImgSpec { w: a.w, h: a.h, ..a.cousin(r) };
            if b.text() == a.text() { b.seed = r.below(1 << 32) }
            for (j, s) in [(k, a), (i, b)] {
                let at = c.files[j].arg.rfind('.').unwrap_or(c.files[j].arg.len());
                c.files[j].arg = format!("{}.bmp", &c.files[j].arg[..at]);
                c.files[j].kind = format!("bmp:{}", s.text());
            }
        }
    }
    // deep tries and long codes, on the small stacks of worker threads
    const TALL: &[(&str, &str, u32, u32, u64)] = &[
        ("zip(dict)", "halves", 400, 300, 1), ("hilbert(zip)", "halves", 350, 300, 2), ("hufman", "distinct", 300, 200, 1),
        ("hufman", "deep", 640, 580, 2), ("delta", "deep", 500, 400, 1), ("zip(dict)", "const", 300, 300, 1), ("zip(back)", "halves", 100, 60, 1),
    ];
    const TALLER: &[(&str, &str, u32, u32, u64)] = &[
        ("hilbert(rle)", "noise", 1600, 1200, 1), ("delta", "natural", 1000, 900, 2), ("zip(dict)", "const", 1000, 1000, 1), ("hilbert(zip)", "noise", 700, 600, 2),
        ("cluster-colors(3)", "noise", 400, 400, 1), ("voronoi(2)", "noise", 400, 400, 2), ("hilbert(rle(20))", "noise", 1300, 1200, 1), ("hufman", "noise", 900, 700, 1),
    ];
    let tall = TALL.get(run as usize).or_else(|| TALLER.get((run as usize).checked_sub(9)?));
    if let (Some((codec, class, w, h, s)), "C17") = (tall, prop) {
        c.mode = "bench".into();
        c.codec = codec.to_string();
        c.threads = 1 + run as u32 % 3;
        c.files = vec![FileSpec { arg: "i0.bmp".into(), kind: format!("bmp:{}", ImgSpec::new(class, *w, *h, *s).text()) }];
        // a single file would be processed by the main thread
        c.files.push(FileSpec { arg: "i1.bmp".into(), kind: format!("bmp:{}", ImgSpec::new("noise", 3, 2, 1).text()) });
    }
    // large pictures, large errors, many files
    const WIDE: &[(&str, &str, u32, u32, u64)] = &[
        ("hufman", "noise", 300, 300, 1), ("zip(dict)", "noise", 300, 280, 1), ("hilbert(rle)", "runs", 300, 260, 1),
        ("delta", "natural", 280, 300, 1), ("hilbert(zip)", "const", 300, 300, 1), ("hufman", "two", 70000, 1, 1), ("delta", "const", 1, 66000, 1),
    ];
    const COARSE: &[(&str, &str, u32, u32, u64)] = &[
        ("hilbert(rle(500))", "extreme", 300, 300, 1), ("cluster-colors(1)", "extreme", 300, 290, 2), ("voronoi(1)", "extreme", 260, 300, 3),
        ("hilbert(rle(441))", "noise", 280, 300, 1), ("cluster-colors(2)", "noise", 300, 230, 4), ("hilbert(rle(100))", "dither", 70000, 1, 5),
    ];
    let wide = match prop { "C05" => WIDE, "C08" => COARSE, _ => &[] };
    if let Some((codec, class, w, h, s)) = wide.get(run as usize) {
        c.codec = codec.to_string();
        c.files = vec![FileSpec { arg: "i0.bmp".into(), kind: format!("bmp:{}", ImgSpec::new(class, *w, *h, *s).text()) }];
    }
    // pictures of more than 64 KB, saved or not
    const HEAVY: &[(&str, &str, u32, u32, u64)] = &[("hilbert(rle(30))", "noise", 200, 190, 1), ("cluster-colors(8)", "noise", 400, 400, 2), ("hilbert(rle(10))", "natural", 300, 300, 3), ("voronoi(3)", "noise", 300, 200, 1)];
    if matches!(prop, "C06" | "C07" | "C12" | "C13") && !export && run % 40 == 19 {
        let (codec, class, w, h, s) = HEAVY[(run / 40) as usize % HEAVY.len()];
        c.codec = codec.to_string();
        c.files.truncate(2);
        c.files.push(FileSpec { arg: "i7.bmp".into(), kind: format!("bmp:{}", ImgSpec::new(class, w, h, s).text()) });
    }
    const EXPORT: &[(&str, &str, u32, u32)] = &[
        ("bmp", "noise", 260, 257), ("png", "gradient", 256, 256), ("png", "natural", 513, 130), ("bmp", "noise", 3, 2100), ("ppm", "noise", 1025, 70), ("png", "gradient", 300, 512),
    ];
    if prop == "C14" && run < 2 * EXPORT.len() as u64 {
        let (fmt, class, w, h) = EXPORT[run as usize % EXPORT.len()];
        c.files = vec![FileSpec { arg: format!("i0.{fmt}"), kind: format!("{fmt}:{}", ImgSpec::new(class, w, h, run).text()) }];
    }
    if prop == "C14" && run % 500 == 77 {
        c.files = (0..60).map(|i| FileSpec { arg: format!("i{i}.bmp"), kind: format!("bmp:{}", ImgSpec::new("noise", 1 + i % 3, 2, (i % 5) as u64).text()) }).collect();
    }
    // without faults: run 8
    let many = matches!(run, 7 | 8) && matches!(prop, "C05" | "C06" | "C07" | "C13" | "C17");
    if many {
        c.codec = "hilbert(rle)".into();
        c.files = (0..if run == 8 && matches!(prop, "C05" | "C17") { 1600 } else { 300 }).map(|i| FileSpec { arg: format!("i{i}.bmp"), kind: format!("bmp:{}", ImgSpec::new("noise", 2, 1, i % 3).text()) }).collect();
        if prop == "C06" { for i in 0..if run == 7 { 140 } else { 20 } { c.files[i * if run == 7 { 2 } else { 13 }].kind = "missing".into() } }
    }
    // a crowd of worker threads, more than any table of a fixed size would have room for
    if run % 240 == 31 && !export && matches!(prop, "C05" | "C06" | "C07" | "C13" | "C17") {
        c.threads = *r.pick(&[33, 40, 65, 70, 100, 130, 150, 260]);
        c.codec = r.pick(&["hufman", "delta", "hilbert(rle)", "hilbert(rle(30))", "hilbert(rle(100))"]).to_string();
        c.files = (0..r.range(c.threads as u64, 2 * c.threads as u64)).map(|i| FileSpec { arg: format!("i{i}.bmp"), kind: format!("bmp:{}", ImgSpec::new("noise", r.range(1, 4) as u32, r.range(1, 3) as u32, r.below(4)).text()) }).collect();
        if prop == "C06" { for f in &mut c.files { if r.below(3) == 0 { f.kind = "missing".into() } } }
    }
    // an image without pixels is nothing special here
    if export && matches!(prop, "C14" | "C24") { for f in c.files.iter_mut().filter(|f| f.kind.starts_with("text:")) { f.kind = "empty".into() } }
    one_odd(&mut c);
    // expected length of the run
    let mut est = 2000;
    if !export { for f in &c.files { if f.img().is_some() { est += solo_bench(p, memo, &c.codec, f).pos } } } else {
        // the largest traversal covers an enclosing square
        est = 40_000 + c.files.iter().filter_map(|f| f.img()).map(|(_, i)| { let s = i.w.max(i.h).next_power_of_two() as u64; s * s * 4 }).sum::<u64>()
    }
    c.step_cap = est * 60 + 40_000_000;
    c.sched = sched(r, est);
    if matches!(prop, "C12" | "C13" | "C05" | "C07" | "C08" | "C14") { if r.below(3) == 0 { stale(r, &mut c, seed) } }
    let outs: Vec<String> = if export {
        c.files.iter().flat_map(|f| ["rect", "small", "large"].map(|m| f.out(&format!("{m}.hilbert.csv")))).collect()
    } else { c.files.iter().map(|f| f.out("png")).collect() };
    let inputs: Vec<String> = c.files.iter().map(|f| f.path()).filter(|p| !p.is_empty()).collect();
    let results = if export { String::new() } else { c.results() };
    let mut v = vec![];
    noise(r, &mut v);
    let some = |r: &mut Rng, l: &Vec<String>| if l.is_empty() { "nothing".to_string() } else { r.pick(l).clone() };
    match prop {
        "C05" => (),
        "C06" => {
            for _ in 0..r.range(0, 3) { let f = some(r, &inputs); input_faults(r, &f, &mut v) }
            for _ in 0..r.range(0, 2) { let f = some(r, &outs); if r.below(3) == 0 { soft_writes(r, &f, &mut v) } else { hard_writes(r, &f, &mut v) } }
        }
        "C07" => {
            match r.below(10) {
                0 => soft_writes(r, &results, &mut v),
                1 => { c.quota = r.log(12_000); if r.below(2) == 0 { c.quota_back = r.range(1, 3) as u32 } }
                2 => { c.outdir = r.below(4) > 0; }
                3 => { let f = some(r, &outs); hard_writes(r, &f, &mut v) }
                4 => v.push(rule(OP_STDOUT, ACT_ERR, r.below(30), times(r), *r.pick(&[EIO, 32, ENOSPC]), "")),
                5 => { soft_writes(r, &results, &mut v); hard_writes(r, &results, &mut v) }
                _ => hard_writes(r, &results, &mut v),
            }
            if r.below(4) == 0 { let f = some(r, &inputs); input_faults(r, &f, &mut v) }
        }
        "C08" => {
            for _ in 0..r.range(0, 3) {
                let f = some(r, &outs);
                if r.below(3) == 0 { soft_writes(r, &f, &mut v) } else { hard_writes(r, &f, &mut v) }
            }
            if r.below(6) == 0 { c.quota = r.log(8_000); if r.below(2) == 0 { c.quota_back = r.range(1, 4) as u32 } }
            if r.below(5) == 0 { soft_writes(r, "output/*", &mut v) }
        }
        "C12" => {
            if r.below(2) == 0 { let f = some(r, &inputs); input_faults(r, &f, &mut v) }
            if r.below(2) == 0 { let f = some(r, &outs); hard_writes(r, &f, &mut v) }
            if r.below(4) == 0 && !export { hard_writes(r, &results, &mut v) }
            if r.below(6) == 0 { c.quota = r.log(8_000) }
            if r.below(3) == 0 { c.crash_pos = r.range(1, est) }
            if r.below(20) == 0 { c.outdir = false }
        }
        "C13" => {
            match r.below(10) {
                0..=3 => c.crash_pos = r.range(1, est + est / 8),
                4 => { let s = c.files.iter().filter(|f| f.img().is_some()).map(|f| solo_bench(p, memo, &c.codec, f).mem).max().unwrap_or(100_000); c.mem_cap = r.range(2_000, (s * c.threads as u64).max(40_000)) }
                5 | 6 => v.push(rule(OP_WRITE, ACT_TORN, if long { r.below(60) } else { r.below(6) }, 1, r.log(9000) as i64 - 1, "output/*")),
                7 => v.push(rule(OP_WRITE, ACT_TORN, nth(r), 1, r.log(9000) as i64 - 1, &results)),
                8 => v.push(rule(OP_WRITE | OP_OPEN | OP_CLOSE, ACT_CRASH, r.below(12), 1, 0, "output/*")),
                _ => { let f = some(r, &outs); v.push(rule(OP_WRITE, ACT_TORN, 0, 1, r.log(3000) as i64 - 1, &f)) }
            }
            if r.below(3) == 0 { soft_writes(r, &results, &mut v) }
            if r.below(3) == 0 { let f = some(r, &outs); soft_writes(r, &f, &mut v) }
            if r.below(6) == 0 { let f = some(r, &outs); hard_writes(r, &f, &mut v) }
        }
        "C14" => {
            match r.below(7) {
                0 => (),
                1 => { let f = some(r, &outs); soft_writes(r, &f, &mut v) }
                2 => { c.quota = r.log(60_000); if r.below(2) == 0 { c.quota_back = r.range(1, 3) as u32 } }
                3 => soft_writes(r, "output/*", &mut v),
                // an error in the middle that goes away
                4 => { let f = some(r, &outs); v.push(rule(OP_WRITE, ACT_ERR, r.below(5), 1, write_err(r), &f)) }
                _ => { let f = some(r, &outs); hard_writes(r, &f, &mut v) }
            }
            if r.below(10) == 0 { let f = some(r, &inputs); input_faults(r, &f, &mut v) }
        }
        "C24" => {
            // nothing of this is a failure
            for _ in 0..r.range(1, 3) {
                let f = if r.below(2) == 0 { String::new() } else { some(r, &inputs) };
                match r.below(5) {
                    0 => v.push(rule(OP_OPEN, ACT_ERR, nth(r), r.range(1, 3) as u32, EINTR, &f)),
                    1 | 2 => v.push(rule(OP_READ, ACT_SHORT, 0, FOREVER, r.range(1, 16) as i64, &f)),
                    _ => v.push(rule(OP_READ, ACT_SHORT, nth(r), times(r), r.log(8200) as i64, &f)),
                }
            }
            for _ in 0..r.range(0, 3) {
                let f = match r.below(4) { 0 => "output/*".to_string(), 1 if !export => results.clone(), _ => some(r, &outs) };
                soft_writes(r, &f, &mut v)
            }
            for op in [OP_STDOUT, 2048] {
                if r.below(4) == 0 { v.push(rule(op, ACT_ERR, r.below(20), r.range(1, 3) as u32, EINTR, "")) }
                if r.below(4) == 0 { v.push(rule(op, ACT_SHORT, r.below(10), times(r), r.log(100) as i64, "")) }
            }
        }
        _ => {
            if r.below(3) == 0 { let f = some(r, &inputs); input_faults(r, &f, &mut v) }
            if r.below(3) == 0 { let f = some(r, &outs); hard_writes(r, &f, &mut v) }
            if r.below(4) == 0 && !export { hard_writes(r, &results, &mut v) }
            if r.below(6) == 0 { c.quota = r.log(12_000) }
            if r.below(8) == 0 { v.push(rule(OP_SPAWN, ACT_ERR, r.below(8), times(r), 11, "")) }
            if r.below(8) == 0 { v.push(rule(OP_STDOUT, ACT_ERR, r.below(40), times(r), *r.pick(&[EIO, 32, 11]), "")) }
            if r.below(12) == 0 { v.push(rule(2048, ACT_ERR, r.below(4), times(r), *r.pick(&[EIO, EIO, 11]), "")) }
            if r.below(20) == 0 { c.outdir = false }
        }
    }
    v.truncate(MAX_RULES);
    c.rules = v;
    let plain = match prop { "C08" => wide.len(), "C14" => EXPORT.len(), "C17" if tall.is_some() => usize::MAX, _ => 0 };
    if (many && run == 8) || run < plain as u64 {
        c.rules.clear();
        (c.quota, c.quota_back, c.crash_pos, c.mem_cap) = (NO_QUOTA, 0, 0, 0);
    }
    c
}

/// Several threads, one codec object
fn session(seed: u64, run: u64, r: &mut Rng) -> PCase {
    let mut c = PCase::bare("C16", "session", &crate::gen::any_codec(r, run));
    // keep clustering affordable: it is repeated for every operation
    if c.codec.starts_with("cluster") || c.codec.starts_with("voronoi") {
        let n = *r.pick(&[1, 2, 4, 8]);
        c.codec = format!("{}({n})", &c.codec[..c.codec.find('(').unwrap()]);
    }
    c.rng_seed = r.next() >> 8;
    let crowd = run % 25 == 9;
    c.threads = if crowd { r.range(9, 20) as u32 } else { r.range(2, 4) as u32 };
    let n = r.range(1, 4);
    let mut last: Option<ImgSpec> = None;
    for i in 0..n {
        let img = match last.take() { Some(l) if r.below(2) == 0 => l.cousin(r), _ => pool(seed, r.below(40)).1 };
        last = Some(img.clone());
        c.files.push(FileSpec { arg: format!("i{i}.raw"), kind: format!("raw:{}", img.text()) });
    }
    // streams to decode: what the same image gives with a fixed seed, intact or damaged
    for i in 0..n {
        let (_, img) = pool(seed, r.below(40));
        let d = if r.below(2) == 0 { String::new() } else { crate::case::dmg_text(&[Dmg::any(r)]) };
        c.files.push(FileSpec { arg: format!("s{i}.str"), kind: format!("stream:{}|{}|{}", c.codec, img.text(), d) });
    }
    for t in 0..c.threads {
        for k in 0..r.range(1, 3) {
            let f = r.below(2 * n);
            let a = &c.files[f as usize].arg;
            let pool = if r.below(5) == 0 { "@" } else { "" };
            let kind = if !a.starts_with('i') { "d".to_string() } else if r.below(6) == 0 { format!("o={}", crate::exec::sibling(&c.codec, r.below(60) as usize)) } else { "e".into() };
            c.ops.push(format!("{t}:{pool}{kind}:{a}:output/r{t}_{k}"));
        }
    }
    c.sched = sched(r, 60_000);
    let mut v = vec![];
    noise(r, &mut v);
    c.rules = v;
    c.step_cap = 4_000_000_000;
    c
}

/// The same work in every place of one process: its main thread, other threads, workers of a pool
fn places(seed: u64, run: u64, r: &mut Rng) -> PCase {
    let codec = match run % 6 {
        0 => "zip(dict)".to_string(), 1 => "zip(back)".into(), 2 => "hilbert(rle)".into(), 3 => "hilbert(zip)".into(),
        4 => format!("hilbert(rle({}))", r.pick(&[1, 7, 40, 200])),
        _ => crate::gen::any_codec(r, r.clone().below(9)),
    };
    // what codecs with random choices write is not always the same, what they read is
    let writes = crate::exec::deterministic(&codec);
    let mut c = PCase::bare("C18", "session", &codec);
    c.rng_seed = r.next() >> 8;
    c.threads = if run % 20 == 3 { r.range(9, 17) } else { r.range(1, 5) } as u32;
    let (_, img) = pool(seed, r.below(40));
    c.files.push(FileSpec { arg: "i0.raw".into(), kind: format!("raw:{}", img.text()) });
    c.files.push(FileSpec { arg: "s0.str".into(), kind: format!("stream:{}|{}|", c.codec, img.text()) });
    for t in 0..=c.threads {
        for k in 0..r.range(1, 2) {
            let pool = if r.below(2) == 0 { "@" } else { "" };
            let (kind, f) = if !writes || r.below(4) == 0 { ("d", "s0.str") } else { ("e", "i0.raw") };
            c.ops.push(format!("{t}:{pool}{kind}:{f}:output/r{t}_{k}"));
        }
    }
    c.sched = sched(r, 60_000);
    let mut v = vec![];
    noise(r, &mut v);
    c.rules = v;
    c.step_cap = 4_000_000_000;
    c
}

/// Steps a run over these files takes, roughly
fn estimate(p: &Proc, memo: &Memo, c: &PCase) -> u64 {
    if c.mode == "export" {
        // the largest traversal covers an enclosing square
        return 40_000 + c.files.iter().filter_map(|f| f.img()).map(|(_, i)| { let s = i.w.max(i.h).next_power_of_two() as u64; s * s * 4 }).sum::<u64>()
    }
    2000 + c.files.iter().filter(|f| f.img().is_some()).map(|f| solo_bench(p, memo, &c.codec, f).pos).sum::<u64>()
}

/// Several runs, one after the other, in the same folder; the last one without faults
fn history(seed: u64, run: u64, r: &mut Rng, p: &Proc, memo: &Memo) -> PCase {
    let export = r.below(6) == 0;
    let mut c = PCase::bare("C22", if export { "export" } else { "bench" }, "-");
    if !export { let lossy = r.below(2) == 0; c.codec = bench_codec(r, run, lossy) }
    c.threads = if export { 1 } else { *r.pick(&[1, 2, 3, 4]) };
    c.rng_seed = r.next() >> 8;
    for i in 0..r.range(1, 5) as usize { let f = good(r, seed, i, false); c.files.push(f) }
    one_odd(&mut c);
    // what the last run is given: nothing it can read, or nothing at all
    let without = if export { 9 } else { r.below(10) };
    for _ in 0..r.range(1, 3) {
        let other = r.below(4) == 0;
        let mode = if other { *r.pick(&["bench", "export"]) } else { &c.mode };
        let mut q = PCase::bare("C22", mode, "-");
        if mode == "bench" { q.codec = if c.mode == "bench" && !other { c.codec.clone() } else { let l = r.below(2) == 0; let k = r.below(8); bench_codec(r, k, l) } }
        q.threads = if mode == "export" { 1 } else { *r.pick(&[1, 2, 4]) };
        q.rng_seed = r.next() >> 8;
        for f in &c.files {
            if r.below(5) == 0 { continue }
            let mut g = f.clone();
            // another picture under the same name
            if r.below(3) == 0 {
                let (_, mut img) = pool(seed, r.below(56));
                if let Some((_, i)) = f.img() { if r.below(2) == 0 { img = i.cousin(r) } }
                if let Some((fmt, _)) = f.img() { g.kind = format!("{fmt}:{}", img.text()) }
            }
            q.files.push(g);
        }
        if r.below(3) == 0 { let f = good(r, seed, 40, false); q.files.push(f) }
        if r.below(8) == 0 { let f = bad(r, seed, 41); q.files.push(f) }
        let est = estimate(p, memo, &q);
        q.step_cap = est * 60 + 40_000_000;
        q.sched = sched(r, est);
        let mut v = vec![];
        let outs: Vec<String> = if mode == "export" {
            q.files.iter().flat_map(|f| ["rect", "small", "large"].map(|m| f.out(&format!("{m}.hilbert.csv")))).collect()
        } else { q.files.iter().map(|f| f.out("png")).chain([q.results()]).collect() };
        match r.below(8) {
            0 => (),
            1..=3 => q.crash_pos = r.range(1, est + est / 8),
            4 => {
                let (f, len) = if mode == "bench" && r.below(2) == 0 { (q.results(), 50 + 60 * q.files.len() as u64) } else { ("output/*".into(), 9000) };
                v.push(rule(OP_WRITE, ACT_TORN, if len == 9000 { r.below(6) } else { 0 }, 1, if r.below(2) == 0 { r.log(len) as i64 - 1 } else { r.below(len) as i64 }, &f))
            }
            5 => q.quota = r.log(8_000),
            6 => { let f = if outs.is_empty() { "x".to_string() } else { r.pick(&outs).clone() }; hard_writes(r, &f, &mut v) }
            _ => v.push(rule(OP_WRITE | OP_OPEN | OP_CLOSE, ACT_CRASH, r.below(12), 1, 0, "output/*")),
        }
        q.rules = v;
        c.prior.push(q);
    }
    match without {
        0 => c.files.clear(),
        1 => for f in &mut c.files { f.kind = bad(r, seed, 0).kind },
        2 => { let k = r.below(c.files.len() as u64) as usize; c.files[k].kind = "missing".into() }
        _ => (),
    }
    let est = estimate(p, memo, &c);
    c.step_cap = est * 60 + 40_000_000;
    c.sched = sched(r, est);
    c
}

/// Many files, few threads, no more open files than those need
fn crowd(seed: u64, run: u64, r: &mut Rng, p: &Proc, memo: &Memo) -> PCase {
    let export = r.below(8) == 0;
    let mut c = PCase::bare("C23", if export { "export" } else { "bench" }, "-");
    let lossy = r.below(4) == 0;
    if !export { c.codec = match bench_codec(r, run, lossy) { z if z == "zip(back)" => "hilbert(rle)".into(), z => z } }
    c.threads = if export { 1 } else { *r.pick(&[1, 1, 2, 2, 3, 4, 6]) };
    c.rng_seed = r.next() >> 8;
    let n = if export { r.range(4, 20) } else { r.range(10, 20) * r.range(1, 6) };
    // few different pictures under many names
    let k = r.range(1, 3);
    let side = *r.pick(&[8, 30, 50]);
    let pics: Vec<(String, ImgSpec)> = (0..k).map(|_| {
        let fmt = *r.pick(&["bmp", "bmp", "png", "ppm", "pnga"]);
        let class = *r.pick(&["noise", "natural", "gradient", "two", "blocks", "palette"]);
        (fmt.to_string(), ImgSpec::new(class, (side + r.below(side)) as u32, side as u32, r.below(1000)))
    }).collect();
    let bad_share = if r.below(3) == 0 { 10 } else { 0 };
    for i in 0..n as usize {
        let (fmt, img) = r.pick(&pics).clone();
        let f = if r.below(100) < bad_share { bad(r, seed, i) } else { FileSpec { arg: format!("i{i}.{}", ext(&fmt)), kind: format!("{fmt}:{}", img.text()) } };
        c.files.push(f);
    }
    if export { c.files.retain(|f| f.img().is_some()) }
    one_odd(&mut c);
    c.fd_cap = 4 + 2 * c.threads;
    let est = estimate(p, memo, &c);
    c.step_cap = est * 60 + 40_000_000;
    c.sched = sched(r, est);
    let mut v = vec![];
    noise(r, &mut v);
    // pictures that cannot be saved, and files that cannot be read
    if !export && r.below(if lossy { 2 } else { 6 }) == 0 { v.push(rule(*r.pick(&[OP_OPEN, OP_WRITE]), ACT_ERR, r.below(8), if r.below(4) == 0 { r.range(1, 40) as u32 } else { FOREVER }, *r.pick(&[ENOSPC, EIO, 13]), "output/*.png")) }
    if !export && r.below(6) == 0 { v.push(rule(*r.pick(&[OP_OPEN, OP_READ]), ACT_ERR, r.below(40), r.log(60) as u32, EIO, &format!("*.{}", ext(&pics[0].0)))) }
    c.rules = v;
    c
}
