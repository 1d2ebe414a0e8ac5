//! Small independent reference models used as oracles.
use image::RgbImage;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::hash::Hash;

/// Minimal payload length in bits of any prefix code for these frequencies
pub fn min_prefix_bits(freqs: &[u64]) -> u64 {
    let mut h: BinaryHeap<Reverse<u64>> = freqs.iter().map(|f| Reverse(*f)).collect();
    let mut total = 0;
    while h.len() > 1 {
        let a = h.pop().unwrap().0;
        let b = h.pop().unwrap().0;
        total += a + b;
        h.push(Reverse(a + b));
    }
    total
}

pub fn freqs<T: Ord + Hash>(it: impl Iterator<Item = T>) -> BTreeMap<T, u64> {
    let mut m = BTreeMap::new();
    for x in it {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}

pub fn color_freqs(img: &RgbImage) -> BTreeMap<[u8; 3], u64> {
    freqs(img.pixels().map(|p| p.0))
}

pub fn diff_freqs(img: &RgbImage) -> BTreeMap<[i16; 3], u64> {
    let mut last = [0i16; 3];
    freqs(crate::img::hilbert(img.width(), img.height()).into_iter().map(move |(x, y)| {
        let c = img.get_pixel(x, y).0.map(|v| v as i16);
        let d = [c[0] - last[0], c[1] - last[1], c[2] - last[2]];
        last = c;
        d
    }))
}

/// Size of a stream: dimensions, tree (tag byte per node, `sym` bytes per leaf), payload
pub fn huf_stream_size(freqs: &[u64], sym: u64) -> u64 {
    let n = freqs.len() as u64;
    8 + n * (1 + sym) + (n - 1) + (min_prefix_bits(freqs) + 7) / 8
}

pub fn hufman_size(img: &RgbImage) -> u64 {
    huf_stream_size(&color_freqs(img).into_values().collect::<Vec<_>>(), 11)
}

pub fn delta_size(img: &RgbImage) -> u64 {
    huf_stream_size(&diff_freqs(img).into_values().collect::<Vec<_>>(), 6)
}

pub fn mse(a: &RgbImage, b: &RgbImage) -> f64 {
    let mut t = 0u64;
    for (p, q) in a.pixels().zip(b.pixels()) {
        for c in 0..3 {
            let d = p.0[c].abs_diff(q.0[c]) as u64;
            t += d * d;
        }
    }
    t as f64 / (a.width() as f64 * a.height() as f64)
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-300)
}

/// Walks a serialised prefix tree. Returns (number of leaves, symbols, bytes used), or
/// None if it isn't one.
pub fn parse_tree(b: &[u8], sym: usize) -> Option<(Vec<Vec<u8>>, Vec<u32>, usize)> {
    let mut pos = 0;
    let mut depths = vec![0u32];
    let (mut syms, mut lens) = (Vec::new(), Vec::new());
    while let Some(d) = depths.pop() {
        match *b.get(pos)? {
            0 => {
                let s = b.get(pos + 1..pos + 1 + sym)?;
                syms.push(s.to_vec());
                lens.push(d);
                pos += 1 + sym;
            }
            1 => {
                pos += 1;
                depths.push(d + 1);
                depths.push(d + 1);
            }
            _ => return None,
        }
    }
    Some((syms, lens, pos))
}

/// The contract of colour reduction, independent of the choices made
pub fn check_reduced(orig: &RgbImage, dec: &RgbImage, n: u64) -> Result<(), String> {
    if orig.dimensions() != dec.dimensions() {
        return Err(format!("dimensions {:?} became {:?}", orig.dimensions(), dec.dimensions()));
    }
    let mut map: BTreeMap<[u8; 3], [u8; 3]> = BTreeMap::new();
    let mut sums: BTreeMap<[u8; 3], ([u64; 3], u64)> = BTreeMap::new();
    for (p, q) in orig.pixels().zip(dec.pixels()) {
        let e = map.entry(p.0).or_insert(q.0);
        if *e != q.0 {
            return Err(format!("colour {:?} became both {:?} and {:?}", p.0, *e, q.0));
        }
        let s = sums.entry(q.0).or_insert(([0; 3], 0));
        for c in 0..3 {
            s.0[c] += p.0[c] as u64;
        }
        s.1 += 1;
    }
    if sums.len() as u64 > n {
        return Err(format!("{} colours used, at most {} allowed", sums.len(), n));
    }
    for (c, (s, k)) in &sums {
        let mean = [(s[0] / k) as u8, (s[1] / k) as u8, (s[2] / k) as u8];
        if mean != *c {
            return Err(format!("colour {:?} replaces {} pixels whose average is {:?}", c, k, mean));
        }
    }
    if map.len() as u64 <= n && orig != dec {
        return Err(format!("{} distinct colours <= {} but the image changed", map.len(), n));
    }
    Ok(())
}

/// The contract of the Voronoi codec; `stream` is what encode wrote
pub fn check_voronoi(orig: &RgbImage, stream: &[u8], dec: &RgbImage, n: u64) -> Result<(), String> {
    if orig.dimensions() != dec.dimensions() {
        return Err(format!("dimensions {:?} became {:?}", orig.dimensions(), dec.dimensions()));
    }
    let (w, h) = orig.dimensions();
    let u32at = |i: usize| stream.get(i..i + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
    let u64at = |i: usize| stream.get(i..i + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    if u32at(0) != Some(w) || u32at(4) != Some(h) {
        return Err("stream does not start with the dimensions".into());
    }
    let k = u64at(8).ok_or("stream too short")?;
    if k < 1 || k > n {
        return Err(format!("{} centroids in the stream, expected 1 to {}", k, n));
    }
    if stream.len() as u64 != 16 + 19 * k {
        return Err(format!("stream of {} bytes for {} centroids", stream.len(), k));
    }
    let mut cs = Vec::new();
    for i in 0..k as usize {
        let o = 16 + 19 * i;
        let (x, y) = (u32at(o).unwrap(), u32at(o + 4).unwrap());
        if x >= w || y >= h {
            return Err(format!("centroid at ({x},{y}) outside of the {w}x{h} image"));
        }
        cs.push((x as i64, y as i64, [stream[o + 16], stream[o + 17], stream[o + 18]]));
    }
    for (x, y, p) in dec.enumerate_pixels() {
        let d = |c: &(i64, i64, [u8; 3])| (c.0 - x as i64).pow(2) + (c.1 - y as i64).pow(2);
        let best = cs.iter().map(d).min().unwrap();
        if !cs.iter().any(|c| d(c) == best && c.2 == p.0) {
            return Err(format!("pixel ({x},{y}) does not have the colour of a nearest centroid"));
        }
    }
    if n >= w as u64 * h as u64 && orig != dec {
        return Err(format!("n = {} >= number of pixels but the image changed", n));
    }
    Ok(())
}
