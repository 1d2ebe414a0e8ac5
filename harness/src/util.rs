use std::collections::BTreeMap;

/* ---- deterministic random numbers ---- */

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b.wrapping_mul(0xd6e8feb86659fd93))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x)).wrapping_add(c.len() as u64);
    }
    h
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b.saturating_sub(a).saturating_add(1))
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// roughly log-uniform in [1, max]
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits) + 1;
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lo = 1u64 << (b - 1);
        self.range(lo, hi.min(max).max(lo)).min(max)
    }
}

/* ---- text forms ---- */

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// percent-encoding of everything that could disturb a `key=value` line or a list
pub fn pct(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"._-/()".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{:02x}", b));
        }
    }
    o
}

pub fn unpct(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

/// Ordered `key=value` lines; keys can repeat
#[derive(Clone, Default)]
pub struct Kv(pub Vec<(String, String)>);

impl Kv {
    pub fn put(&mut self, k: &str, v: impl ToString) {
        self.0.push((k.to_string(), v.to_string().replace('\n', " ")));
    }
    pub fn text(&self) -> String {
        self.0.iter().map(|(k, v)| format!("{k}={v}\n")).collect()
    }
    pub fn parse(s: &str) -> Kv {
        Kv(s.lines()
            .filter(|l| !l.starts_with('#'))
            .filter_map(|l| l.split_once('='))
            .map(|(a, b)| (a.to_string(), b.to_string()))
            .collect())
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn s(&self, k: &str) -> String {
        self.get(k).unwrap_or("").to_string()
    }
    pub fn u(&self, k: &str) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(0)
    }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a str> + 'a {
        self.0.iter().filter(move |x| x.0 == k).map(|x| x.1.as_str())
    }
}

/* ---- counters ---- */

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, std::collections::BTreeSet<u64>>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max:{k}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, k: &str, h: u64) {
        self.sets.entry(k.to_string()).or_default().insert(h);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.get(k).cloned().unwrap_or(0)
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.counts {
            if k.starts_with("max:") {
                let e = self.counts.entry(k.clone()).or_insert(0);
                *e = (*e).max(*v);
            } else {
                *self.counts.entry(k.clone()).or_insert(0) += v;
            }
        }
        for (k, v) in &o.sets {
            self.sets.entry(k.clone()).or_default().extend(v);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/* ---- names that are not unicode: characters U+F780..U+F7FF stand for the bytes 80..FF ---- */

fn raw(c: char) -> Option<u8> { matches!(c as u32, 0xf780..=0xf7ff).then(|| c as u32 as u8) }

pub fn odd_bytes(s: &str) -> bool { s.chars().any(|c| raw(c).is_some()) }

pub fn os(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in s.chars() { match raw(c) { Some(b) => v.push(b), None => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()) } }
    std::ffi::OsString::from_vec(v)
}

pub fn unos(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        for x in c.invalid() { s.push(char::from_u32(0xf700 + *x as u32).unwrap()) }
    }
    s
}
