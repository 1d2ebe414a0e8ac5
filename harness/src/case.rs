//! Codec-level cases: what is encoded and decoded, by which simulated processes, through
//! which sinks, and what happens to the stored bytes in between.
use crate::img::ImgSpec;
use crate::util::{Kv, Rng};
use std::io::{self, ErrorKind, Write};

/* ---- positions in a stream whose length is only known at run time ---- */

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos { Abs(u64), End(u64), Frac(u64) }

impl Pos {
    /// in [0, n)  (n > 0)
    pub fn at(&self, n: u64) -> u64 {
        match *self {
            Pos::Abs(a) => a.min(n - 1),
            Pos::End(k) => n - k.clamp(1, n),
            Pos::Frac(f) => ((f as u128 * n as u128) / 1_000_000) as u64,
        }
    }
    pub fn text(&self) -> String {
        match self { Pos::Abs(a) => format!("a{a}"), Pos::End(a) => format!("e{a}"), Pos::Frac(a) => format!("f{a}") }
    }
    pub fn parse(s: &str) -> Option<Pos> {
        let n = s.get(1..)?.parse().ok()?;
        Some(match s.as_bytes()[0] { b'a' => Pos::Abs(n), b'e' => Pos::End(n), b'f' => Pos::Frac(n.min(999_999)), _ => return None })
    }
    pub fn any(r: &mut Rng) -> Pos {
        match r.below(6) {
            0 => Pos::Abs(r.below(24)),
            1 => Pos::Abs(r.log(4000)),
            2 => Pos::End(r.range(1, 4)),
            3 => Pos::End(r.log(4000)),
            _ => Pos::Frac(r.below(1_000_000)),
        }
    }
}

/* ---- the writer given to encode ---- */

pub const KINDS: &[&str] = &["io", "full", "pipe", "block", "zero", "perm", "timeout", "eof"];

#[derive(Clone, Debug, PartialEq)]
pub struct SinkSpec {
    /// 0 whole buffers, 1 short random, 2 single bytes, 3 whole but interrupted, 4 short and
    /// interrupted, 5 all but the last byte
    pub pace: u8,
    pub seed: u64,
    pub fail: Option<Pos>,
    pub kind: usize,
    pub sticky: bool,
    /// the fault hits flush() instead of a write
    pub flush: bool,
}

impl SinkSpec {
    pub fn perfect() -> Self { SinkSpec { pace: 0, seed: 0, fail: None, kind: 0, sticky: false, flush: false } }
    pub fn text(&self) -> String {
        format!("{}:{}:{}:{}:{}:{}", self.pace, self.seed, self.fail.map_or("-".into(), |p| p.text()),
            KINDS[self.kind], self.sticky as u8, self.flush as u8)
    }
    pub fn parse(s: &str) -> Option<Self> {
        let v: Vec<_> = s.split(':').collect();
        if v.len() != 6 { return None }
        Some(SinkSpec { pace: v[0].parse().ok()?, seed: v[1].parse().ok()?, fail: Pos::parse(v[2]),
            kind: KINDS.iter().position(|k| *k == v[3])?, sticky: v[4] == "1", flush: v[5] == "1" })
    }
    pub fn paced(r: &mut Rng) -> Self {
        SinkSpec { pace: r.range(1, 5) as u8, seed: r.below(1 << 32), ..Self::perfect() }
    }
    pub fn failing(r: &mut Rng) -> Self {
        let flush = r.below(12) == 0;
        SinkSpec {
            pace: if r.below(2) == 0 { 0 } else { r.range(1, 5) as u8 },
            seed: r.below(1 << 32),
            fail: Some(if r.below(8) == 0 { Pos::Abs(0) } else { Pos::any(r) }),
            kind: r.below(KINDS.len() as u64) as usize,
            sticky: r.below(3) > 0,
            flush,
        }
    }
    pub fn simpler(&self) -> Vec<Self> {
        let mut v = vec![];
        if self.pace != 0 { v.push(SinkSpec { pace: 0, seed: 0, ..self.clone() }) }
        if self.pace > 2 { v.push(SinkSpec { pace: 2, seed: 0, ..self.clone() }) }
        if self.kind != 0 { v.push(SinkSpec { kind: 0, ..self.clone() }) }
        if !self.sticky && self.fail.is_some() { v.push(SinkSpec { sticky: true, ..self.clone() }) }
        if self.fail.is_some() && self.fail != Some(Pos::Abs(0)) {
            v.push(SinkSpec { fail: Some(Pos::Abs(0)), ..self.clone() });
            v.push(SinkSpec { fail: Some(Pos::Abs(8)), ..self.clone() });
            v.push(SinkSpec { fail: Some(Pos::End(1)), ..self.clone() });
        }
        v
    }
}

pub struct SimSink {
    spec: SinkSpec,
    rng: Rng,
    pub got: Vec<u8>,
    fail_at: Option<u64>,
    failing: bool,
    pub delivered: bool,
    pub got_at_fail: usize,
    /// bytes accepted or a flush succeeded after the failure
    pub flush_failed: bool,
    pub calls: u64, pub shorts: u64, pub eintr: u64, pub errors: u64, pub flushes: u64,
    interrupted: bool,
}

impl SimSink {
    pub fn new(spec: &SinkSpec, full_len: u64) -> Self {
        SimSink {
            spec: spec.clone(),
            rng: Rng::new(spec.seed),
            got: Vec::new(),
            fail_at: if spec.flush { None } else { spec.fail.map(|p| p.at(full_len.max(1))) },
            failing: false, delivered: false, got_at_fail: 0, flush_failed: false,
            calls: 0, shorts: 0, eintr: 0, errors: 0, flushes: 0, interrupted: false,
        }
    }
    fn error(&mut self) -> io::Result<usize> {
        self.errors += 1;
        if !self.delivered {
            self.delivered = true;
            self.got_at_fail = self.got.len();
        }
        self.failing = self.spec.sticky;
        self.fail_at = None;
        let k = match KINDS[self.spec.kind] {
            "full" => ErrorKind::StorageFull,
            "pipe" => ErrorKind::BrokenPipe,
            "block" => ErrorKind::WouldBlock,
            "zero" => return Ok(0),
            "perm" => ErrorKind::PermissionDenied,
            "timeout" => ErrorKind::TimedOut,
            "eof" => ErrorKind::UnexpectedEof,
            _ => ErrorKind::Other,
        };
        Err(io::Error::new(k, "simulated"))
    }
}

impl Write for SimSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0) }
        if self.failing { return self.error() }
        if self.spec.pace >= 3 && self.spec.pace <= 4 && !self.interrupted && self.rng.below(3) == 0 {
            // at most two in a row
            self.interrupted = self.rng.below(2) == 0;
            self.eintr += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let mut n = b.len();
        match self.spec.pace {
            1 | 4 => n = self.rng.range(1, n as u64) as usize,
            2 => n = 1,
            5 if n > 1 => n -= 1,
            _ => (),
        }
        if let Some(at) = self.fail_at {
            let room = (at as usize).saturating_sub(self.got.len());
            if room == 0 { return self.error() }
            n = n.min(room);
        }
        if n < b.len() { self.shorts += 1 }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.failing || (self.spec.flush && self.spec.fail.is_some() && (self.spec.sticky || !self.delivered)) {
            self.flush_failed = true;
            // a flush cannot accept "nothing": report an error for every kind
            return match self.error() { Ok(_) => Err(io::Error::new(ErrorKind::WriteZero, "simulated")), Err(e) => Err(e) };
        }
        self.flush_failed = false;
        Ok(())
    }
}

/* ---- damage to stored bytes ---- */

const DAMAGES: &[&str] = &["flip", "set", "drop", "insert", "dup", "fill", "zero", "lose", "sector", "misplace", "grow", "word", "chain"];

/// What a chain repeats: nodes of a trie, empty runs and pieces, repetitions of nothing
const LINKS: &[&[u8]] = &[
    &[1], &[1, 0, 3, 0, 0, 0, 0, 0, 0, 0, 7, 7, 7], &[1, 0, 1, 0, 1, 0, 1, 0], &[1, 1, 0, 3, 0, 0, 0, 0, 0, 0, 0, 7, 7, 7, 0, 3, 0, 0, 0, 0, 0, 0, 0, 8, 8, 8], &[0], &[0xff], &[0, 0x80, 1, 0], &[0, 3, 0, 0, 0, 0, 0, 0, 0, 9, 9, 9], &[1, 0, 0xff, 0xff], &[1, 0x80, 0, 0],
    &[0xff, 0x7f], &[0xff, 0xff, 1, 0], &[0, 1, 0, 1],
];
pub const LINK_KINDS: u64 = LINKS.len() as u64;

#[derive(Clone, Debug, PartialEq)]
pub struct Dmg { pub kind: u8, pub pos: Pos, pub val: u64 }

impl Dmg {
    pub fn any(r: &mut Rng) -> Dmg {
        let val = match r.below(4) { 0 => *r.pick(&[0, 1, 0x7f, 0x80, 0xfe, 0xff]), _ => r.below(256) };
        Dmg { kind: r.below(DAMAGES.len() as u64 - 1) as u8, pos: Pos::any(r), val }
    }
    pub fn text(&self) -> String {
        let k = DAMAGES[self.kind as usize];
        format!("{k}:{}:{}", self.pos.text(), self.val)
    }
    pub fn parse(s: &str) -> Option<Dmg> {
        let v: Vec<_> = s.split(':').collect();
        let kind = DAMAGES.iter().position(|k| *k == v[0])? as u8;
        Some(Dmg { kind, pos: Pos::parse(v.get(1)?)?, val: v.get(2)?.parse().ok()? })
    }
    /// Everything at or after byte `keep` can be hit
    pub fn apply(&self, b: &mut Vec<u8>, keep: usize) {
        if b.len() <= keep { return }
        let p = keep + match self.pos {
            Pos::Abs(a) => (a as usize) % (b.len() - keep),
            q => q.at((b.len() - keep) as u64) as usize,
        };
        match self.kind {
            0 => b[p] ^= 1 << (self.val % 8),
            1 => b[p] = self.val as u8,
            2 => { let n = (1 + self.val as usize % 9).min(b.len() - p); b.drain(p..p + n); }
            3 => { for i in 0..1 + self.val % 5 { b.insert(p, (self.val.wrapping_mul(37 + i)) as u8) } }
            4 => { let n = (1 + self.val as usize % 32).min(b.len() - p); let s = b[p..p + n].to_vec(); for (i, x) in s.into_iter().enumerate() { b.insert(p + i, x) } }
            5 => { let n = (1 + self.val as usize % 8).min(b.len() - p); for x in &mut b[p..p + n] { *x = 0xff } }
            6 => { let n = (1 + self.val as usize % 64).min(b.len() - p); for x in &mut b[p..p + n] { *x = 0 } }
            // a longer part is lost
            7 => { let n = (1 + self.val as usize).min(b.len() - p); b.drain(p..p + n); }
            // a whole sector was never written
            8 => { let (lo, hi) = ((p & !511).max(keep), (p | 511).min(b.len() - 1)); for x in &mut b[lo..=hi] { *x = 0 } }
            // bytes of another place
            9 => {
                let q = keep + (self.val as usize * 2654435761) % (b.len() - keep);
                let n = (1 + self.val as usize * 3).min(b.len() - p.max(q));
                let s = b[q..q + n].to_vec();
                b[p..p + n].copy_from_slice(&s);
            }
            // a small change of an aligned number
            11 => { let q = keep + ((p - keep) & !1); if q + 1 < b.len() { let x = u16::from_le_bytes([b[q], b[q + 1]]).wrapping_add(1 + self.val as u16); b[q..q + 2].copy_from_slice(&x.to_le_bytes()) } }
            // one thing over and over again
            12 => {
                let link = LINKS[self.val as usize % LINKS.len()];
                let n = [3, 100, 5_000, 2_000_000][self.val as usize / LINKS.len() % 4];
                let t = b.split_off(p);
                b.extend(link.iter().cycle().take(n - n % link.len()));
                if self.val / (4 * LINK_KINDS) == 0 { b.extend(t) }
            }
            // the file grew
            _ => { let n = 1 + self.val as usize * 5; b.extend((0..n).map(|i| if self.val % 2 == 0 { 0 } else { (i * 31) as u8 })) }
        }
    }
}

/// Damage leaves the recorded dimensions alone: the first eight bytes, or, where they are
/// compressed together with the pixels, everything they could occupy
pub fn header(codec: &str) -> usize { if codec.starts_with("zip") { 24 } else { 8 } }

pub fn dmg_text(v: &[Dmg]) -> String { v.iter().map(|d| d.text()).collect::<Vec<_>>().join("+") }
pub fn dmg_parse(s: &str) -> Vec<Dmg> { s.split('+').filter_map(Dmg::parse).collect() }

/* ---- sessions: several operations on one codec object ---- */

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// encode image i through sink j (-1: perfect)
    Enc(usize, i32),
    /// decode the stream of image i, damaged by list j (-1: intact)
    Dec(usize, i32),
    /// decode the stream of image i cut at cuts[j]
    Cut(usize, usize),
    /// encode image i with a new codec object of a related kind, and decode that
    Other(usize, usize),
    /// so many encodings and decodings, of images like image i
    Many(usize, usize),
}

impl Op {
    pub fn text(&self) -> String {
        match self { Op::Enc(i, j) => format!("e:{i}:{j}"), Op::Dec(i, j) => format!("d:{i}:{j}"), Op::Cut(i, j) => format!("c:{i}:{j}"), Op::Other(i, j) => format!("o:{i}:{j}"), Op::Many(i, n) => format!("m:{i}:{n}") }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let v: Vec<_> = s.split(':').collect();
        let i = v.get(1)?.parse().ok()?;
        Some(match v[0] { "e" => Op::Enc(i, v.get(2)?.parse().ok()?), "d" => Op::Dec(i, v.get(2)?.parse().ok()?), "o" => Op::Other(i, v.get(2)?.parse().ok()?), "m" => Op::Many(i, v.get(2)?.parse().ok()?), _ => Op::Cut(i, v.get(2)?.parse().ok()?) })
    }
}

/* ---- what lies behind a stream ---- */

const TAILS: &[&str] = &["none", "noise", "zeros", "ones", "same", "other", "endless"];

#[derive(Clone, Debug, PartialEq)]
pub struct Tail { pub kind: usize, pub len: u64, pub seed: u64 }

impl Tail {
    pub fn any(r: &mut Rng) -> Tail { Tail { kind: r.below(TAILS.len() as u64) as usize, len: r.log(100_000), seed: r.below(1 << 32) } }
    pub fn text(&self) -> String { format!("{}:{}:{}", TAILS[self.kind], self.len, self.seed) }
    pub fn parse(s: &str) -> Option<Tail> {
        let v: Vec<_> = s.split(':').collect();
        Some(Tail { kind: TAILS.iter().position(|k| *k == v[0])?, len: v.get(1)?.parse().ok()?, seed: v.get(2)?.parse().ok()? })
    }
    pub fn simpler(&self) -> Vec<Tail> {
        let mut v = vec![];
        if self.kind > 2 { v.push(Tail { kind: 2, ..self.clone() }) }
        for len in [1, 2, self.len / 2] { if len < self.len && len > 0 { v.push(Tail { len, ..self.clone() }) } }
        v
    }
    pub fn is(&self, kind: &str) -> bool { TAILS[self.kind] == kind }
    /// The k-th byte behind a stream
    pub fn byte(&self, k: u64, same: &[u8], other: &[u8]) -> Option<u8> {
        let of = |b: &[u8]| b.get(k as usize).cloned();
        match TAILS[self.kind] {
            "same" => of(same),
            "other" => of(other),
            "endless" => Some((self.seed >> (k % 4 * 8)) as u8),
            _ if k >= self.len => None,
            "noise" => Some((crate::util::mix2(self.seed, k)) as u8),
            "zeros" => Some(0),
            "ones" => Some(255),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub codec: String,
    pub imgs: Vec<ImgSpec>,
    pub seed_a: u64,
    pub seed_b: u64,
    pub sinks: Vec<SinkSpec>,
    pub all_cuts: bool,
    pub cuts: Vec<Pos>,
    pub dmgs: Vec<Vec<Dmg>>,
    pub ops: Vec<Op>,
    pub tails: Vec<Tail>,
    pub fresh_threads: bool,
    /// how the image is held in memory: see `FORMS`
    pub form: usize,
}

impl Case {
    pub fn kv(&self) -> Kv {
        let mut k = Kv::default();
        k.put("engine", "codec");
        k.put("prop", &self.prop);
        k.put("codec", &self.codec);
        for i in &self.imgs { k.put("img", i.text()) }
        k.put("seed_a", self.seed_a);
        k.put("seed_b", self.seed_b);
        for s in &self.sinks { k.put("sink", s.text()) }
        if self.all_cuts { k.put("all_cuts", 1) }
        for c in &self.cuts { k.put("cut", c.text()) }
        for d in &self.dmgs { k.put("damage", dmg_text(d)) }
        for o in &self.ops { k.put("op", o.text()) }
        for t in &self.tails { k.put("tail", t.text()) }
        if self.fresh_threads { k.put("fresh_threads", 1) }
        if self.form > 0 { k.put("form", crate::img::FORMS[self.form]) }
        k
    }
    pub fn parse(k: &Kv) -> Case {
        Case {
            prop: k.s("prop"), codec: k.s("codec"),
            imgs: k.all("img").filter_map(ImgSpec::parse).collect(),
            seed_a: k.u("seed_a"), seed_b: k.u("seed_b"),
            sinks: k.all("sink").filter_map(SinkSpec::parse).collect(),
            all_cuts: k.u("all_cuts") == 1,
            cuts: k.all("cut").filter_map(Pos::parse).collect(),
            dmgs: k.all("damage").map(dmg_parse).collect(),
            ops: k.all("op").filter_map(Op::parse).collect(),
            tails: k.all("tail").filter_map(Tail::parse).collect(),
            fresh_threads: k.u("fresh_threads") == 1,
            form: crate::img::FORMS.iter().position(|f| *f == k.s("form")).unwrap_or(0),
        }
    }
    /// Simpler variants, the most drastic first
    pub fn simpler(&self) -> Vec<Case> {
        let mut v: Vec<Case> = vec![];
        let mut add = |c: Case| if c != *self { v.push(c) };
        if self.prop == "C16" {
            for i in (0..self.ops.len()).rev() { let mut c = self.clone(); c.ops.remove(i); if !c.ops.is_empty() { add(c) } }
        }
        if self.sinks.len() > 1 && self.prop != "C16" { for s in &self.sinks { let mut c = self.clone(); c.sinks = vec![s.clone()]; add(c) } }
        if self.dmgs.len() > 1 && self.prop != "C16" { for d in &self.dmgs { let mut c = self.clone(); c.dmgs = vec![d.clone()]; add(c) } }
        if self.tails.len() > 1 { for t in &self.tails { let mut c = self.clone(); c.tails = vec![t.clone()]; add(c) } }
        for (i, t) in self.tails.iter().enumerate() { for s in t.simpler() { let mut c = self.clone(); c.tails[i] = s; add(c) } }
        if self.cuts.len() > 1 && self.prop != "C16" { for d in &self.cuts { let mut c = self.clone(); c.cuts = vec![*d]; add(c) } }
        for (i, o) in self.ops.iter().enumerate() {
            if let Op::Many(k, n) = *o { for m in [1, n / 2, n - n / 8, n - 1] { if m > 0 && m < n { let mut c = self.clone(); c.ops[i] = Op::Many(k, m); add(c) } } }
        }
        if self.form > 0 { let mut c = self.clone(); c.form = 0; add(c) }
        for (i, im) in self.imgs.iter().enumerate() {
            for s in im.shrink() { let mut c = self.clone(); c.imgs[i] = s; add(c) }
        }
        for (i, s) in self.sinks.iter().enumerate() {
            for t in s.simpler() { let mut c = self.clone(); c.sinks[i] = t; add(c) }
        }
        for (i, d) in self.dmgs.iter().enumerate() {
            if d.len() > 1 { for j in 0..d.len() { let mut c = self.clone(); c.dmgs[i].remove(j); add(c) } }
        }
        if let Some(o) = self.codec.find('(') {
            if self.codec.starts_with("cluster") || self.codec.starts_with("voronoi") {
                let n: u64 = self.codec[o + 1..self.codec.len() - 1].parse().unwrap_or(1);
                for m in [1, 2, 3, n / 2, n.saturating_sub(1)] {
                    if m >= 1 && m < n { let mut c = self.clone(); c.codec = format!("{}({m})", &self.codec[..o]); add(c) }
                }
            }
        }
        for s in [1u64, 2] {
            if self.seed_a > 2 { let mut c = self.clone(); c.seed_a = s; add(c) }
            if self.seed_b > 2 { let mut c = self.clone(); c.seed_b = s + 10; add(c) }
        }
        v
    }
}
