//! Image generators: every image is a function of a short specification.
use crate::util::Rng;
use image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba, RgbImage};
use zhang_hilbert::ArbHilbertScan32;

#[derive(Clone, Debug, PartialEq)]
pub struct ImgSpec {
    pub class: String,
    pub w: u32,
    pub h: u32,
    pub seed: u64,
}

pub fn hilbert(w: u32, h: u32) -> Vec<(u32, u32)> {
    ArbHilbertScan32::new([w, h]).map(|a| (a[0], a[1])).collect()
}

pub const CLASSES: &[&str] = &[
    "const", "two", "palette", "gradient", "noise", "hstripes", "vstripes", "blocks", "fib",
    "natural", "extreme", "tile", "runs", "near", "window", "gray", "halves", "distinct", "pow2",
    "drift", "sparse", "jitter", "offby", "bulk", "dither", "ones", "deep",
];

/// How an image can be held in memory
pub const FORMS: &[&str] = &["rgb", "rgba", "rgb16", "rgba16", "luma", "lumaa", "luma16"];

/// What is left of an image in this form
pub fn formed(mut i: RgbImage, form: usize) -> RgbImage {
    if form >= 4 { for p in i.pixels_mut() { p.0 = [p.0[1]; 3] } }
    i
}

/// The image in this form; alpha, and what 8 bits cannot hold, are arbitrary
pub fn dynamic(i: &RgbImage, form: usize) -> DynamicImage {
    let mut r = Rng::new(i.width() as u64 * 31 + i.height() as u64);
    let (w, h) = i.dimensions();
    let mut a = || match r.below(3) { 0 => 255, 1 => 0, _ => r.below(256) as u8 };
    let mut fine = Rng::new(w as u64);
    let mut wide = |v: u8| (v as i64 * 257 + if v == 0 || v == 255 { 0 } else { fine.below(201) as i64 - 100 }) as u16;
    match FORMS[form] {
        "rgba" => image::RgbaImage::from_fn(w, h, |x, y| { let p = i.get_pixel(x, y).0; Rgba([p[0], p[1], p[2], a()]) }).into(),
        "rgb16" => DynamicImage::ImageRgb16(ImageBuffer::from_fn(w, h, |x, y| Rgb(i.get_pixel(x, y).0.map(&mut wide)))),
        "rgba16" => DynamicImage::ImageRgba16(ImageBuffer::from_fn(w, h, |x, y| { let p = i.get_pixel(x, y).0.map(&mut wide); Rgba([p[0], p[1], p[2], a() as u16 * 257]) })),
        "luma" => image::GrayImage::from_fn(w, h, |x, y| Luma([i.get_pixel(x, y).0[1]])).into(),
        "lumaa" => image::GrayAlphaImage::from_fn(w, h, |x, y| LumaA([i.get_pixel(x, y).0[1], a()])).into(),
        "luma16" => DynamicImage::ImageLuma16(ImageBuffer::from_fn(w, h, |x, y| Luma([wide(i.get_pixel(x, y).0[1])]))),
        _ => i.clone().into(),
    }
}

impl ImgSpec {
    pub fn new(class: &str, w: u32, h: u32, seed: u64) -> Self {
        ImgSpec { class: class.into(), w, h, seed }
    }

    pub fn text(&self) -> String {
        format!("{}:{}x{}:{}", self.class, self.w, self.h, self.seed)
    }

    pub fn parse(s: &str) -> Option<Self> {
        let mut it = s.split(':');
        let class = it.next()?.to_string();
        let (w, h) = it.next()?.split_once('x')?;
        Some(ImgSpec { class, w: w.parse().ok()?, h: h.parse().ok()?, seed: it.next()?.parse().ok()? })
    }

    pub fn pixels(&self) -> u64 {
        self.w as u64 * self.h as u64
    }

    /// The usual mix: many small images, some of awkward shapes, few large ones
    pub fn any(r: &mut Rng, max_px: u64) -> Self {
        let class = *r.pick(CLASSES);
        let (mut w, mut h) = match r.below(20) {
            0..=2 => (r.range(1, 4), r.range(1, 4)),
            3..=9 => (r.range(1, 24), r.range(1, 24)),
            10 => (r.log(700), 1),
            11 => (1, r.log(700)),
            12..=14 => (r.range(5, 60), r.range(5, 60)),
            15 => (r.range(250, 270), r.range(1, 4)),
            16 => (r.range(1, 3), r.range(250, 270)),
            17 => ((1 << r.range(0, 6)) + r.below(2), (1 << r.range(0, 6)) + r.below(2)),
            18 => (r.range(20, 110), r.range(20, 110)),
            _ => (r.log(200), r.log(200)),
        };
        while w * h > max_px {
            if w > h { w = w / 2 + 1 } else { h = h / 2 + 1 }
            if w * h > max_px && w <= 2 && h <= 2 { break; }
        }
        ImgSpec::new(class, w.max(1) as u32, h.max(1) as u32, r.below(1 << 32))
    }

    /// An image with much in common with this one
    pub fn cousin(&self, r: &mut Rng) -> Self {
        let mut c = self.clone();
        match r.below(9) {
            0 => std::mem::swap(&mut c.w, &mut c.h),
            1 => if c.w % 2 == 0 { c.w /= 2; c.h *= 2 } else if c.h % 2 == 0 { c.h /= 2; c.w *= 2 } else { c.seed = r.below(1 << 32) },
            2 => c.seed = r.below(1 << 32),
            k => if !c.class.contains('~') { c.class = format!("{}~{}", c.class, k - 2) },
        }
        c
    }

    pub fn build(&self) -> RgbImage {
        if let Some((class, k)) = self.class.split_once('~') {
            let mut i = ImgSpec { class: class.into(), ..self.clone() }.build();
            let (w, h) = i.dimensions();
            let mut r = Rng::new(self.seed ^ 0x77);
            let (x, y, u, v) = (r.below(w as u64) as u32, r.below(h as u64) as u32, r.below(w as u64) as u32, r.below(h as u64) as u32);
            let c = r.below(3) as usize;
            match k {
                // one channel of one pixel
                "1" => { let p = i.get_pixel_mut(x, y); p.0[c] ^= 1 }
                "2" => { let p = i.get_pixel_mut(w - 1, h - 1); p.0[c] = p.0[c].wrapping_add(1 + r.below(255) as u8) }
                // the same colours, the same number of times
                "3" => { let (p, q) = (*i.get_pixel(x, y), *i.get_pixel(u, v)); i.put_pixel(x, y, q); i.put_pixel(u, v, p) }
                // the same colours, with other frequencies
                "6" => for _ in 0..(w as u64 * h as u64 / 3).clamp(1, 2000) {
                    let (x, y, u, v) = (r.below(w as u64) as u32, r.below(h as u64) as u32, r.below(w as u64) as u32, r.below(h as u64) as u32);
                    let p = *i.get_pixel(x, y);
                    i.put_pixel(u, v, p);
                },
                "4" => i = image::imageops::rotate180(&i),
                _ => for p in i.pixels_mut() { p.0.swap(0, 2) },
            }
            return i;
        }
        let (w, h) = (self.w, self.h);
        let n = (w as usize) * (h as usize);
        let mut r = Rng::new(self.seed ^ 0x1234_5678);
        let rgb = |r: &mut Rng| { let x = r.next(); [x as u8, (x >> 8) as u8, (x >> 16) as u8] };
        let px: Vec<[u8; 3]> = match self.class.as_str() {
            "const" => vec![if self.seed % 4 == 0 { [(self.seed >> 2) as u8; 3] } else { rgb(&mut r) }; n],
            "two" => {
                let (a, b) = (rgb(&mut r), rgb(&mut r));
                let p = r.range(1, 20);
                (0..n).map(|_| if r.below(p) == 0 { b } else { a }).collect()
            }
            "palette" => {
                let k = r.log(300);
                let pal: Vec<_> = (0..k).map(|_| rgb(&mut r)).collect();
                (0..n).map(|_| *r.pick(&pal)).collect()
            }
            "gradient" => {
                let (sx, sy, c) = (r.range(0, 9), r.range(0, 9), rgb(&mut r));
                (0..n).map(|i| {
                    let (x, y) = ((i % w as usize) as u64, (i / w as usize) as u64);
                    [(c[0] as u64 + x * sx) as u8, (c[1] as u64 + y * sy) as u8, (c[2] as u64 + x + y) as u8]
                }).collect()
            }
            "noise" => (0..n).map(|_| rgb(&mut r)).collect(),
            "hstripes" => {
                let k = r.range(1, 5);
                let pal: Vec<_> = (0..k).map(|_| rgb(&mut r)).collect();
                (0..n).map(|i| pal[(i / w as usize) % k as usize]).collect()
            }
            "vstripes" => {
                let k = r.range(1, 5);
                let pal: Vec<_> = (0..k).map(|_| rgb(&mut r)).collect();
                (0..n).map(|i| pal[(i % w as usize) % k as usize]).collect()
            }
            "blocks" => {
                let b = r.range(2, 9) as usize;
                let s = r.next();
                (0..n).map(|i| {
                    let (x, y) = ((i % w as usize) / b, (i / w as usize) / b);
                    let v = crate::util::mix2(s, (x * 1009 + y) as u64);
                    [v as u8, (v >> 8) as u8, (v >> 16) as u8]
                }).collect()
            }
            // Fibonacci-like frequencies: the deepest possible prefix code
            "fib" | "pow2" => {
                let mut v = Vec::new();
                let (mut a, mut b) = (1usize, 1usize);
                while v.len() < n {
                    let c = rgb(&mut r);
                    v.extend(std::iter::repeat(c).take(a.min(n - v.len())));
                    if self.class == "fib" { let t = a + b; a = b; b = t; } else { a *= 2; }
                }
                if self.seed % 2 == 0 {
                    for i in (1..n).rev() { v.swap(i, r.below(i as u64 + 1) as usize); }
                }
                v
            }
            // long codes of both kinds of bits
            "deep" => {
                let mut v = Vec::new();
                let (mut leaf, mut sum) = (1usize, 1usize);
                let p = r.range(6, 24);
                v.push(rgb(&mut r));
                while v.len() < n {
                    let c = rgb(&mut r);
                    v.extend(std::iter::repeat(c).take(leaf.min(n - v.len())));
                    // the next symbol joins the tree of all the rarer ones, from the left or from the right
                    let next = if r.below(p) == 0 { sum + leaf + 1 } else { leaf.max(sum + 1) };
                    sum += leaf;
                    leaf = next;
                }
                if self.seed % 2 == 0 {
                    for i in (1..n).rev() { v.swap(i, r.below(i as u64 + 1) as usize); }
                }
                v
            }
            "natural" => {
                let mut v = vec![[0u8; 3]; n];
                let step = r.range(1, 12) as i64;
                for i in 0..n {
                    for c in 0..3 {
                        let left = if i % w as usize > 0 { v[i - 1][c] as i64 } else { 128 };
                        let up = if i >= w as usize { v[i - w as usize][c] as i64 } else { left };
                        let d = r.range(0, 2 * step as u64) as i64 - step;
                        v[i][c] = ((left + up) / 2 + d).clamp(0, 255) as u8;
                    }
                }
                v
            }
            "extreme" => (0..n).map(|_| {
                let x = r.next();
                [if x & 1 == 0 { 0 } else { 255 }, if x & 2 == 0 { 0 } else { 255 }, if x & 4 == 0 { 0 } else { 255 }]
            }).collect(),
            "tile" => {
                let t = r.log(n.max(2) as u64) as usize;
                let tile: Vec<_> = (0..t).map(|_| rgb(&mut r)).collect();
                (0..n).map(|i| tile[i % t]).collect()
            }
            // run lengths around the limits of a byte along the traversal
            "runs" => {
                let mut v = vec![[0u8; 3]; n];
                let lens = [1u64, 2, 3, 126, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765];
                let order = hilbert(w, h);
                let mut i = 0;
                while i < n {
                    let l = *r.pick(&lens);
                    let c = rgb(&mut r);
                    for _ in 0..l {
                        if i < n {
                            let (x, y) = order[i];
                            v[(y * w + x) as usize] = c;
                            i += 1;
                        }
                    }
                }
                v
            }
            "near" => {
                let c = rgb(&mut r);
                (0..n).map(|_| { let mut d = c; let k = r.below(3) as usize; d[k] = d[k].wrapping_add(r.below(3) as u8); d }).collect()
            }
            // an earlier segment repeated about one look-back window later
            "window" => {
                let mut v: Vec<[u8; 3]> = (0..n).map(|_| rgb(&mut r)).collect();
                // 65535 bytes of look-back, 11 bytes per pixel
                if self.seed % 2 == 1 {
                    // short ones everywhere
                    let mut i = 5940;
                    while i < n {
                        let d = r.range(5948, 5966) as usize;
                        for _ in 0..r.range(1, 3) { if i < n && i >= d { v[i] = v[i - d] } i += 1 }
                        i += r.range(1, 40) as usize;
                    }
                    // where the second lap begins
                    if n > 11920 { for i in 11908..11920 { if r.below(2) == 0 { v[i] = v[i - r.range(5955, 5960) as usize] } } }
                } else {
                    let dist = r.range(5948, 5966) as usize;
                    let start = r.below(64) as usize;
                    for i in 0..r.range(1, 600) as usize {
                        if start + dist + i < n { v[start + dist + i] = v[start + i]; }
                    }
                }
                v
            }
            "gray" => (0..n).map(|_| [r.next() as u8; 3]).collect(),
            "halves" => {
                let c = rgb(&mut r);
                (0..n).map(|i| if i < n / 2 { c } else { rgb(&mut r) }).collect()
            }
            "distinct" => {
                let o = r.next() as u32;
                (0..n).map(|i| { let x = (i as u32).wrapping_mul(2654435761).wrapping_add(o); [x as u8, (x >> 8) as u8, (x >> 16) as u8] }).collect()
            }
            "drift" => (0..n).map(|i| [(i & 255) as u8, ((i >> 8) & 255) as u8, ((i >> 3) & 255) as u8]).collect(),
            "sparse" => {
                let mut v = vec![[255u8; 3]; n];
                for _ in 0..r.range(1, 6) { let i = r.below(n as u64) as usize; v[i] = rgb(&mut r); }
                v
            }
            // a base colour plus a small amount per channel: rounding decides between clusters
            "jitter" => {
                let range = *r.pick(&[2, 2, 2, 3, 4, 6]);
                let k = r.range(1, 3) as usize;
                let base = r.below(257 - range);
                (0..n).map(|_| { let mut c = [base as u8; 3]; for x in &mut c[..k] { *x += r.below(range) as u8 } c }).collect()
            }
            // nearly one colour: a handful of pixels differ by very little
            "offby" => {
                let c = match r.below(4) { 0 => [255; 3], 1 => [r.next() as u8; 3], _ => rgb(&mut r) };
                let mut v = vec![c; n];
                for _ in 0..r.range(1, 4) {
                    let i = r.below(n as u64) as usize;
                    let k = r.below(3) as usize;
                    let d = r.range(1, 2) as u8;
                    v[i][k] = if c[k] >= 128 { c[k] - d } else { c[k] + d };
                }
                v
            }
            // a few colours of very different weight
            "bulk" => {
                let k = r.range(2, 9) as usize;
                let pal: Vec<_> = (0..k).map(|_| rgb(&mut r)).collect();
                let weights: Vec<u64> = match r.below(3) {
                    0 => (0..k).map(|_| r.range(1, 100)).collect(),
                    1 => (0..k).map(|i| if i == 0 { r.range(200, 900) } else { r.range(90, 110) }).collect(),
                    _ => (0..k).map(|i| 1u64 << i).collect(),
                };
                let total: u64 = weights.iter().sum();
                let mut v = Vec::with_capacity(n);
                for (c, w) in pal.iter().zip(&weights) {
                    v.extend(std::iter::repeat(*c).take((n as u64 * w / total) as usize));
                }
                let last = pal[k - 1];
                v.resize(n, last);
                match self.seed % 3 {
                    0 => for i in (1..n).rev() { v.swap(i, r.below(i as u64 + 1) as usize) },
                    1 => { let (a, s) = (v.clone(), r.range(1, 1000) as usize * 2 + 1); for i in 0..n { v[i] = a[(i as u64 * s as u64 % n as u64) as usize] } }
                    _ => (),
                }
                v
            }
            // two close colours in a regular pattern
            "dither" => {
                let a = rgb(&mut r);
                let mut b = a;
                let k = r.below(3) as usize;
                b[k] = b[k].wrapping_add(r.range(1, 9) as u8);
                let m = r.range(2, 9);
                (0..n).map(|i| if ((i % w as usize) + (i / w as usize)) as u64 % m == 0 { b } else { a }).collect()
            }
            // two colours whose one-bit codes pack into bytes of value 1 for the first half
            "ones" => {
                let (a, b) = (rgb(&mut r), rgb(&mut r));
                let k = (self.seed % 8) as usize;
                (0..n).map(|i| if i > n / 2 || i % 8 == 7 - k { b } else { a }).collect()
            }
            _ => vec![[0; 3]; n],
        };
        RgbImage::from_fn(w, h, |x, y| Rgb(px[y as usize * w as usize + x as usize]))
    }

    /// Simpler variants of this image, simplest first
    pub fn shrink(&self) -> Vec<ImgSpec> {
        let mut v = Vec::new();
        let mut dims = vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (4, 4), (8, 8), (16, 16),
            (self.w / 2, self.h / 2), (self.w / 2, self.h), (self.w, self.h / 2),
            (self.w * 3 / 4, self.h), (self.w, self.h * 3 / 4),
            (self.w.saturating_sub(1), self.h), (self.w, self.h.saturating_sub(1))];
        dims.retain(|d| d.0 > 0 && d.1 > 0 && d.0 <= self.w && d.1 <= self.h && (d.0 < self.w || d.1 < self.h));
        for c in ["const", "two", "palette"] {
            if self.class != c && !["const"].contains(&self.class.as_str()) {
                v.push(ImgSpec { class: c.into(), seed: 1, ..self.clone() });
            }
        }
        for (w, h) in dims {
            v.push(ImgSpec { w, h, ..self.clone() });
        }
        if self.seed > 3 {
            v.push(ImgSpec { seed: 1, ..self.clone() });
        }
        v
    }
}
