//! From (property, seed, run number) to a codec-level case. The first run numbers are
//! landmarks: shapes that random images of moderate size would rarely hit.
use crate::case::*;
use crate::img::ImgSpec;
use crate::util::{hash_bytes, mix2, Rng};

pub const LOSSLESS: &[&str] = &["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)"];

/// (codec, class, w, h, seed)
type Mark = (&'static str, &'static str, u32, u32, u64);

/// Landmarks where a stream format reaches a limit
const LIMITS: &[Mark] = &[
    ("zip(dict)", "noise", 300, 300, 1), ("zip(back)", "window", 130, 70, 1), ("hufman", "fib", 420, 300, 2),
    ("hilbert(rle)", "runs", 100, 100, 1), ("hilbert(zip)", "noise", 310, 290, 1), ("delta", "extreme", 64, 64, 1),
    ("hufman", "distinct", 300, 300, 1), ("zip(dict)", "const", 300, 300, 5), ("zip(back)", "noise", 120, 90, 1),
    ("hilbert(rle)", "const", 255, 1, 1), ("hilbert(rle)", "const", 256, 1, 1), ("hilbert(rle)", "const", 16, 32, 1),
    ("delta", "noise", 300, 250, 1), ("hilbert(zip)", "natural", 400, 300, 1), ("zip(dict)", "palette", 350, 300, 3),
    ("zip(back)", "window", 200, 100, 2), ("zip(back)", "window", 64, 130, 3), ("zip(back)", "window", 129, 66, 4),
    ("hufman", "const", 70000, 1, 1), ("delta", "gradient", 1, 70000, 1), ("hilbert(rle)", "two", 70000, 1, 2),
    ("zip(dict)", "gradient", 70000, 1, 1), ("hilbert(zip)", "two", 1, 70000, 1), ("zip(back)", "noise", 9000, 1, 1),
    ("hufman", "distinct", 256, 1, 1), ("hufman", "distinct", 257, 1, 1), ("delta", "fib", 300, 300, 1),
    ("hufman", "const", 1, 1, 1), ("delta", "const", 1, 1, 1), ("zip(dict)", "const", 1, 1, 1),
    ("zip(back)", "const", 1, 1, 1), ("hilbert(rle)", "const", 1, 1, 1), ("hilbert(zip)", "const", 1, 1, 1),
    ("zip(back)", "const", 60, 60, 1), ("zip(back)", "const", 106, 104, 0), ("zip(back)", "tile", 110, 100, 3),
    ("zip(dict)", "tile", 400, 300, 9), ("hilbert(zip)", "blocks", 300, 300, 9), ("zip(dict)", "natural", 300, 300, 4),
    ("delta", "natural", 300, 300, 4), ("hilbert(rle)", "natural", 300, 300, 4), ("hufman", "natural", 300, 300, 4),
    ("zip(back)", "natural", 120, 100, 4), ("zip(back)", "palette", 150, 100, 4), ("hilbert(rle)", "halves", 200, 200, 1),
    ("hufman", "pow2", 512, 256, 1), ("delta", "drift", 300, 300, 1), ("hilbert(rle)", "gray", 257, 255, 1),
];

/// Images as large as it takes for counters, sums and offsets to outgrow small integers
const COUNTS: &[Mark] = &[
    ("hufman", "bulk", 1000, 700, 1), ("hufman", "bulk", 640, 580, 2), ("hufman", "bulk", 300, 2100, 3),
    ("hufman", "bulk", 1000, 700, 4), ("hufman", "bulk", 640, 580, 5), ("hufman", "bulk", 900, 900, 7),
    ("delta", "bulk", 1000, 700, 2), ("delta", "bulk", 640, 580, 5), ("delta", "dither", 1000, 700, 3), ("delta", "bulk", 300, 2100, 1),
];
const SUMS: &[(u64, &str, u32, u32, u64)] = &[
    (1, "offby", 700, 600, 4), (1, "offby", 1, 450000, 1), (1, "offby", 900, 900, 8), (2, "bulk", 1000, 700, 1), (3, "bulk", 640, 580, 2),
    (1, "const", 98000, 1, 5), (1, "two", 1, 131000, 2), (3, "const", 131072, 1, 3), (7, "noise", 66000, 1, 1), (2, "offby", 1, 98000, 2),
    (1, "offby", 2100, 2100, 4), (20, "gradient", 130000, 1, 3), (2, "dither", 1000, 700, 5), (1, "bulk", 2, 60000, 4),
];
/// Sums of colours beyond 32 bits
const BRIGHT: &[(u64, &str, u32, u32, u64)] = &[(1, "sparse", 4200, 4100, 3)];
const NESTED: &[Mark] = &[("hufman", "ones", 2_400_000, 1, 8)];
/// Rounded centroids make plain k-means alternate between assignments forever
const CYCLES: &[(u64, &str, u32, u32, u64)] = &[
    (32, "jitter", 7, 9, 4186214505), (5, "jitter", 7, 7, 2104221695), (5, "jitter", 4, 9, 3892576659),
    (16, "jitter", 4, 9, 1746462445), (15, "jitter", 8, 5, 2974039843), (15, "jitter", 10, 4, 3697851778),
    (48, "jitter", 9, 9, 4279883874), (11, "jitter", 7, 9, 1860059082), (16, "jitter", 8, 7, 936760296),
    (23, "jitter", 9, 9, 1492457585), (27, "jitter", 10, 8, 1250549430), (20, "jitter", 6, 8, 2285063861),
    (30, "jitter", 7, 8, 1642808703), (5, "jitter", 6, 5, 1333602001), (22, "jitter", 5, 6, 3305191445),
    (16, "jitter", 5, 9, 2644776965), (10, "jitter", 5, 9, 3622233518), (21, "jitter", 6, 8, 1010925551),
    (9, "jitter", 7, 4, 715887719), (13, "jitter", 4, 7, 3526419933), (6, "jitter", 5, 5, 2711805665),
    (26, "jitter", 10, 7, 1480073484), (17, "jitter", 9, 6, 4128845428), (15, "jitter", 9, 9, 3922684671),
];
/// Far look-back: a lap of the window, and what comes after two
const LAPS: &[Mark] = &[
    ("zip(back)", "window", 12000, 1, 1), ("zip(back)", "window", 110, 110, 3), ("zip(back)", "window", 1, 12000, 5),
    ("zip(back)", "window", 120, 101, 7), ("zip(back)", "window", 240, 51, 9), ("zip(back)", "window", 130, 94, 11),
];
/// Long prefix codes, and tries with long branches
const DEPTHS: &[Mark] = &[
    ("hufman", "deep", 1000, 700, 1), ("hufman", "deep", 640, 580, 2), ("hufman", "deep", 1100, 900, 3),
    ("zip(dict)", "halves", 400, 300, 1), ("hilbert(zip)", "halves", 350, 300, 2), ("zip(dict)", "halves", 90_000, 1, 3),
    // codes of more than 32 bits
    ("hufman", "fib", 3900, 3900, 1),
];
/// Payloads that end exactly with a byte: nothing is left to be written at the end
const WHOLE: &[Mark] = &[
    ("hufman", "two", 16, 8, 4), ("delta", "const", 8, 8, 1), ("hufman", "const", 5, 5, 1), ("hufman", "two", 8, 1, 7),
    ("delta", "const", 16, 4, 2), ("hufman", "two", 40, 40, 9), ("delta", "const", 1, 1, 3), ("hufman", "two", 32, 2, 3),
];

/// Streams that grow long, for properties that encode or decode many times per run
const LONG: &[Mark] = &[
    ("zip(dict)", "noise", 300, 300, 1), ("hilbert(zip)", "noise", 310, 290, 1), ("hufman", "distinct", 300, 300, 1),
    ("hilbert(rle)", "runs", 300, 300, 1), ("delta", "noise", 300, 250, 1), ("hufman", "deep", 640, 580, 2), ("zip(back)", "window", 110, 110, 3),
];

/// More than 2^16 of everything
const BROAD: &[Mark] = &[
    ("zip(back)", "noise", 150, 110, 9), ("hufman", "distinct", 1024, 1024, 1), ("delta", "noise", 1000, 900, 1), ("hilbert(rle)", "runs", 1000, 1000, 1),
    ("zip(dict)", "noise", 600, 500, 1), ("hilbert(zip)", "natural", 900, 700, 1), ("hilbert(rle)", "noise", 1000, 1000, 2), ("zip(dict)", "natural", 700, 600, 1),
];
/// Larger ones, for the thorough tier
const DEEP: &[Mark] = &[
    ("hufman", "fib", 3100, 3000, 2), ("hufman", "pow2", 4096, 2100, 1), ("zip(dict)", "noise", 900, 800, 1),
    ("hilbert(zip)", "noise", 800, 800, 2), ("zip(dict)", "const", 1500, 1500, 1), ("zip(back)", "noise", 160, 150, 1),
    ("hufman", "distinct", 1024, 1024, 1), ("delta", "noise", 1000, 1000, 1), ("hilbert(rle)", "runs", 1000, 1000, 1),
    ("zip(back)", "window", 140, 100, 9), ("delta", "fib", 1500, 1500, 1), ("hilbert(zip)", "natural", 1200, 900, 1),
    ("zip(dict)", "natural", 1200, 900, 1), ("hufman", "noise", 1000, 900, 1), ("zip(back)", "natural", 150, 140, 2),
];

/// Landmarks for properties that encode or decode many times per run
fn light(m: &Mark) -> bool {
    let px = m.2 as u64 * m.3 as u64;
    if m.0 == "zip(back)" { px <= 9_100 && m.4 == 1 } else { px <= 30_000 }
}

/// An image size that keeps this codec affordable
fn max_px(prop: &str, codec: &str, r: &mut Rng, deep: bool) -> u64 {
    let big = r.below(12) == 0;
    // zip(back) takes quadratic time
    let m = if codec.starts_with("zip(back") {
        if prop == "C01" { if r.below(30) == 0 { 12_000 } else { 3_000 } }
        else if r.below(30) == 0 { 6_000 } else { 1_200 }
    }
        else if codec.starts_with("cluster") || codec.starts_with("voronoi") { if big { 3_000 } else { 900 } }
        else if big { 60_000 } else { 8_000 };
    // ... or even more, on very regular images of more than one symbol's length
    if deep { if m >= 12_000 && codec.starts_with("zip(back") { m } else { m * 2 } } else { m }
}

fn clusters(r: &mut Rng, name: &str) -> String {
    let n = match r.below(6) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(2, 16), 3 => r.range(8, 64), 4 => r.log(300), _ => *r.pick(&[1, 2, 3, 5, 8, 100, 101, 150, 256, 257, 1000, 65536, 65537, 1 << 32, (1 << 32) + 1, u64::MAX]) };
    format!("{name}({n})")
}

fn approx(r: &mut Rng) -> String {
    format!("hilbert(rle({}))", r.pick(&[1u64, 2, 3, 5, 8, 10, 20, 30, 50, 100, 200, 441, 500]))
}

pub fn any_codec(r: &mut Rng, run: u64) -> String {
    match run % 9 {
        6 => approx(r),
        7 => clusters(r, "cluster-colors"),
        8 => clusters(r, "voronoi"),
        k => LOSSLESS[k as usize].to_string(),
    }
}

fn image(r: &mut Rng, prop: &str, codec: &str, deep: bool) -> ImgSpec {
    let m = max_px(prop, codec, r, deep);
    let mut i = ImgSpec::any(r, m);
    // look-back over its window, and quadratic matching on long repetitions
    if codec == "zip(back)" {
        if r.below(if prop == "C01" || deep { 25 } else { 60 }) == 0 { i = ImgSpec::new("window", r.range(90, 130) as u32, r.range(64, 95) as u32, r.next() >> 32) }
    }
    if codec.starts_with("hilbert(rle") && r.below(3) == 0 { i.class = "runs".into() }
    i
}

fn base(prop: &str, codec: String, img: ImgSpec, r: &mut Rng) -> Case {
    Case {
        prop: prop.into(), codec, imgs: vec![img], seed_a: r.next() >> 16, seed_b: r.next() >> 16,
        sinks: vec![], all_cuts: false, cuts: vec![], dmgs: vec![], ops: vec![], tails: vec![], fresh_threads: false, form: 0,
    }
}

fn dmgs(r: &mut Rng, n: u64) -> Vec<Vec<Dmg>> {
    (0..n).map(|_| { let k = if r.below(3) == 0 { r.range(2, 4) } else { 1 }; (0..k).map(|_| Dmg::any(r)).collect() }).collect()
}

pub fn gen(prop: &str, seed: u64, run: u64, deep: bool) -> Case {
    let mut c = plain(prop, seed, run, deep);
    // images that are not held as three bytes per pixel; without colours, landmarks would lose their point
    let mut r = Rng::new(mix2(mix2(seed ^ 0xf0, hash_bytes(prop.as_bytes())), run));
    if c.imgs[0].pixels() < 200_000 && r.below(5) == 0 { c.form = r.range(1, if run < 90 { 3 } else { 6 }) as usize }
    c
}

fn plain(prop: &str, seed: u64, run: u64, deep: bool) -> Case {
    let mut rng = Rng::new(mix2(mix2(seed, hash_bytes(prop.as_bytes())), run));
    let r = &mut rng;
    let marks: Vec<&Mark> = if deep { LIMITS.iter().chain(DEEP).collect() } else { LIMITS.iter().collect() };
    // the slowest ones first
    let mark = |first: &[Mark], ok: fn(&Mark) -> bool| -> Option<Mark> {
        let k = first.len() as u64;
        if run < k { return Some(first[run as usize]) }
        marks.iter().filter(|m| ok(m)).nth((run - k) as usize).map(|m| **m)
    };
    let of = |m: Mark| (m.0.to_string(), ImgSpec::new(m.1, m.2, m.3, m.4));
    let whole: &[Mark] = &[LONG, WHOLE].concat();
    let broad: &[Mark] = &[BROAD, LAPS, DEPTHS].concat();
    let nested: &[Mark] = &[NESTED, LONG].concat();
    match prop {
        "C01" => {
            let (codec, img) = match mark(broad, |_| true) {
                Some(m) => of(m),
                None => { let c = LOSSLESS[run as usize % 6].to_string(); let i = image(r, prop, &c, deep); (c, i) }
            };
            let mut c = base(prop, codec, img, r);
            let big = c.imgs[0].pixels() > 20_000;
            let mut s = SinkSpec::paced(r);
            if big || r.below(2) == 0 { s = SinkSpec::perfect() }
            c.sinks = vec![s];
            c
        }
        "C02" => {
            let (codec, img) = match mark(&[], |_| true) {
                Some(m) => of(m),
                None => { let c = any_codec(r, run); let i = image(r, prop, &c, deep); (c, i) }
            };
            let px = img.pixels();
            let mut c = base(prop, codec, img, r);
            c.all_cuts = px <= 60;
            let n = if px > 20_000 { 10 } else if px > 2_000 { 24 } else { 48 };
            c.cuts = [0, 1, 4, 7, 8, 9, 15, 16, 17].iter().map(|x| Pos::Abs(*x)).chain([1, 2, 3, 4, 5, 19].iter().map(|x| Pos::End(*x))).collect();
            for _ in 0..n { c.cuts.push(Pos::any(r)) }
            // where blocks of files and buffers end
            for b in [512, 4096, 8192, 65536] { if px * 4 > b { c.cuts.push(Pos::Abs(b * r.range(1, (px * 3 / b).clamp(1, 8)))) } }
            c
        }
        "C03" | "C04" => {
            let (codec, img) = match mark(whole, light) {
                Some(m) => of(m),
                None => { let c = any_codec(r, run); let i = image(r, prop, &c, deep); (c, i) }
            };
            let mut c = base(prop, codec, img, r);
            let kmeans = c.codec.starts_with("cluster") || c.codec.starts_with("voronoi");
            let px = c.imgs[0].pixels();
            let n = if px > 30_000 { 2 } else if c.codec == "zip(back)" && px > 1_500 { 1 } else if px > 3_000 || kmeans { 4 } else { 8 };
            c.sinks = (0..n).map(|_| if prop == "C03" { SinkSpec::failing(r) } else { SinkSpec::paced(r) }).collect();
            if prop == "C03" {
                c.sinks.push(SinkSpec { fail: Some(Pos::End(1)), ..SinkSpec::failing(r) });
                if c.sinks.len() > 3 { c.sinks.push(SinkSpec { flush: true, sticky: true, ..SinkSpec::failing(r) }) }
            }
            c
        }
        "C09" => {
            let (codec, img) = match mark(COUNTS, |m| m.0 == "hufman" || m.0 == "delta") {
                Some(m) => of(m),
                None => { let c = ["hufman", "delta"][run as usize % 2].to_string(); let i = image(r, prop, &c, deep); (c, i) }
            };
            base(prop, codec, img, r)
        }
        "C10" | "C11" => {
            let name = if prop == "C10" { "cluster-colors" } else { "voronoi" };
            let bright: &[_] = if prop == "C10" { BRIGHT } else { &[] };
            if let Some(m) = bright.iter().chain(SUMS).chain(CYCLES).nth(run as usize) { return base(prop, format!("{name}({})", m.0), ImgSpec::new(m.1, m.2, m.3, m.4), r) }
            if run % 2 == 0 {
                let (w, h) = (r.range(1, 9), r.range(1, 9));
                let codec = format!("{name}({})", r.range(1, w * h));
                return base(prop, codec, ImgSpec::new("jitter", w as u32, h as u32, r.below(1 << 32)), r);
            }
            let codec = clusters(r, name);
            let img = image(r, prop, &codec, deep);
            base(prop, codec, img, r)
        }
        "C15" if run >= 900 && run < 909 => {
            // deep tries, endless rows of nothing
            let codec = any_codec(r, run - 900);
            let img = ImgSpec::new("noise", 20, 20, run);
            let mut c = base(prop, codec, img, r);
            c.dmgs = (0..LINK_KINDS).map(|k| vec![Dmg { kind: 12, pos: Pos::Abs(0), val: k + 3 * LINK_KINDS + (k + run) % 2 * 4 * LINK_KINDS }]).collect();
            c
        }
        "C15" => {
            let (codec, img) = match mark(nested, light) {
                Some(m) => of(m),
                None => { let c = any_codec(r, run); let i = image(r, prop, &c, deep); (c, i) }
            };
            let px = img.pixels();
            let mut c = base(prop, codec, img, r);
            if c.imgs[0].class == "ones" && px > 1_000_000 {
                // the second of two leaves is lost, and what follows looks like branches
                c.dmgs = vec![vec![Dmg { kind: 7, pos: Pos::Abs(13), val: 11 }]];
                return c;
            }
            c.dmgs = dmgs(r, if px > 5_000 { 6 } else { 16 });
            if px <= 30_000 {
                let mut r = Rng::new(c.seed_a);
                let p = if r.below(2) == 0 { Pos::Abs(0) } else { Pos::any(&mut r) };
                c.dmgs.push(vec![Dmg { kind: 12, pos: p, val: r.below(8 * LINK_KINDS) }]);
            }
            c
        }
        "C25" => {
            let (codec, img) = match mark(whole, light) {
                Some(m) => of(m),
                None => { let c = any_codec(r, run); let i = image(r, prop, &c, deep); (c, i) }
            };
            let px = img.pixels();
            let other = ImgSpec::any(r, 2 * px.min(8_000));
            let mut c = base(prop, codec, img, r);
            c.imgs.push(other);
            c.tails = (0..if px > 8_000 { 3 } else { 10 }).map(|_| Tail::any(r)).collect();
            c
        }
        "C16" if run < 9 || (run < 900 && run % 30 == 11) => {
            // a long life
            let codec = match any_codec(r, run) { k if k.starts_with("cluster") => "cluster-colors(2)".into(), k if k.starts_with("vor") => "voronoi(2)".into(), k => k };
            let n = if run >= 9 { 600 } else if codec == "hufman" || codec == "delta" || codec.starts_with("hilbert(rle") { 66_000 } else { 6_000 };
            let i = ImgSpec::new("noise", r.range(1, 3) as u32, r.range(1, 2) as u32, r.below(1 << 32));
            let mut c = base(prop, codec, i.clone(), r);
            c.imgs.push(i.cousin(r));
            c.ops = vec![Op::Enc(0, -1), Op::Many(0, n), Op::Enc(1, -1), Op::Dec(1, -1), Op::Enc(0, -1), Op::Dec(0, -1)];
            c
        }
        "C16" => {
            let codec = any_codec(r, run);
            let n = r.range(1, 4) as usize;
            let mut imgs: Vec<ImgSpec> = (0..n).map(|_| { let mut i = ImgSpec::any(r, 1500); if codec.starts_with("zip") && r.below(4) == 0 { i = ImgSpec::any(r, 6000) } i }).collect();
            for i in 1..n { if r.below(2) == 0 { let k = r.below(i as u64) as usize; imgs[i] = imgs[k].cousin(r) } }
            let mut c = base(prop, codec, imgs[0].clone(), r);
            c.imgs = imgs;
            c.sinks = (0..3).map(|_| SinkSpec::failing(r)).collect();
            c.dmgs = dmgs(r, 6);
            c.cuts = (0..3).map(|_| Pos::any(r)).collect();
            c.fresh_threads = r.below(3) == 0;
            if r.below(5) < 2 {
                if r.below(2) == 0 { for d in &mut c.dmgs { d.truncate(1); d[0].kind = 11 } }
                // one damaged stream after the other
                for _ in 0..r.range(4, 16) {
                    let i = r.below(n as u64) as usize;
                    c.ops.push(match r.below(5) { 0 => Op::Cut(i, r.below(3) as usize), 1 => Op::Dec(i, -1), _ => Op::Dec(i, r.below(6) as i32) })
                }
            }
            for _ in 0..r.range(3, 10) {
                let i = r.below(n as u64) as usize;
                c.ops.push(match r.below(8) {
                    0 | 1 | 2 => Op::Enc(i, -1),
                    3 => Op::Enc(i, r.below(3) as i32),
                    4 | 5 => Op::Dec(i, -1),
                    6 => Op::Dec(i, r.below(6) as i32),
                    _ => Op::Cut(i, r.below(3) as usize),
                });
            }
            if r.below(3) == 0 {
                for _ in 0..r.range(1, 3) { let at = r.below(c.ops.len() as u64 + 1) as usize; c.ops.insert(at, Op::Other(r.below(n as u64) as usize, r.below(60) as usize)) }
            }
            // whatever happened before: the object must still work
            c.ops.push(Op::Enc(0, -1));
            c.ops.push(Op::Dec(0, -1));
            c
        }
        "C18" => {
            let (codec, img) = match mark(&[], |m| !matches!(m.0, "hufman" | "delta") && (m.0 != "zip(back)" || light(m))) {
                Some(m) => of(m),
                None => {
                    let c = match run % 12 {
                        0 | 1 => "zip(dict)".into(), 2 | 3 => "zip(back)".into(), 4 | 5 => "hilbert(zip)".into(),
                        6 => "hilbert(rle)".into(), 7 => approx(r), k => any_codec(r, [0, 1, 7, 8][k as usize - 8]),
                    };
                    let i = image(r, prop, &c, deep);
                    (c, i)
                }
            };
            let mut c = base(prop, codec, img, r);
            if c.imgs[0].pixels() < 10_000 { c.dmgs = dmgs(r, 2) }
            c
        }
        _ => crate::harness_error(&format!("no generator for {prop}")),
    }
}
