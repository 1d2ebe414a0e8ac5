//! Executes codec-level cases as simulated processes and judges what they did.
use crate::case::*;
use crate::cell::{Cell, End, Port, Reader, Res};
use crate::img::{dynamic, formed, ImgSpec};
use crate::model;
use crate::seam;
use crate::util::{hash_bytes, mix2, Stats};
use cniic::sim::Codec;
use image::RgbImage;

pub const STEP_LIMIT: u64 = 4_000_000_000;
/// zip(back) looks at everything in its window, several thousand pixels, for every pixel
fn step_limit(spec: &str, img: &RgbImage) -> u64 { STEP_LIMIT + img.width() as u64 * img.height() as u64 * if spec == "zip(back)" { 500_000 } else { 1000 } }

#[derive(Debug, Clone)]
pub struct Fail { pub msg: String, pub cut: Option<Pos> }

fn fail<T>(msg: String) -> Result<T, Fail> { Err(Fail { msg, cut: None }) }

fn codec(spec: &str) -> Codec {
    cniic::sim::codec(spec).unwrap_or_else(|| panic!("codec {spec} is not accepted"))
}

#[derive(Debug)]
pub struct Enc { pub ok: bool, pub got: Vec<u8>, pub at_fail: usize, pub delivered: bool, pub flush_failed: bool, pub err: String }

fn put_enc(p: &mut Port, c: &Codec, img: &RgbImage, form: usize, sink: &SinkSpec, len: u64) {
    let mut s = SimSink::new(sink, len);
    let img = dynamic(img, form);
    let r = c.encode(&img, &mut s);
    p.put_u64(r.is_ok() as u64);
    p.put_bytes(&s.got);
    p.put_u64(s.got_at_fail as u64);
    p.put_u64(s.delivered as u64);
    p.put_u64(s.flush_failed as u64);
    p.put_bytes(r.err().map_or(String::new(), |e| e.to_string()).as_bytes());
    for x in [s.calls, s.shorts, s.eintr, s.errors, s.flushes] { p.put_u64(x) }
}

fn get_enc(r: &mut Reader, st: &mut Stats) -> Enc {
    let e = Enc {
        ok: r.u64() == 1, got: r.bytes().to_vec(), at_fail: r.u64() as usize,
        delivered: r.u64() == 1, flush_failed: r.u64() == 1,
        err: String::from_utf8_lossy(r.bytes()).into_owned(),
    };
    for k in ["sink_calls", "fault:sink_short_write", "fault:sink_eintr", "fault:sink_error", "sink_flushes"] {
        st.add(k, r.u64());
    }
    e
}

fn put_dec(p: &mut Port, c: &Codec, b: &[u8]) {
    let mut it = b.iter().cloned();
    put_image(p, c.decode(&mut it))
}

fn put_image(p: &mut Port, i: Option<image::DynamicImage>) {
    match i {
        None => p.put_u64(0),
        Some(i) => {
            let i = i.to_rgb8();
            p.put_u64(1);
            p.put_u64(i.width() as u64);
            p.put_u64(i.height() as u64);
            p.put_bytes(i.as_raw());
        }
    }
}

fn get_dec(r: &mut Reader) -> Option<RgbImage> {
    if r.u64() == 0 { return None }
    let (w, h) = (r.u64() as u32, r.u64() as u32);
    RgbImage::from_raw(w, h, r.bytes().to_vec())
}

pub struct Sim<'a> { pub cell: &'a Cell, pub st: &'a mut Stats, pub form: usize }

impl<'a> Sim<'a> {
    fn note(&mut self, r: &Res) {
        self.st.add("processes", 1);
        self.st.add("steps", r.steps);
        self.st.max("steps_one_process", r.steps);
        self.st.add("random_draws", r.draws);
    }

    pub fn encode(&mut self, spec: &str, seed: u64, img: &RgbImage, sink: &SinkSpec, len: u64) -> Result<Enc, Fail> {
        let form = self.form;
        let r = self.cell.run(seed, step_limit(spec, img), |p| put_enc(p, &codec(spec), img, form, sink, len));
        self.note(&r);
        if r.end != End::Done { return fail(format!("encode with {spec} {}", r.end.text())) }
        Ok(get_enc(&mut Reader(&r.data), self.st))
    }

    /// The complete stream
    pub fn stream(&mut self, spec: &str, seed: u64, img: &RgbImage) -> Result<Vec<u8>, Fail> {
        let e = self.encode(spec, seed, img, &SinkSpec::perfect(), 0)?;
        if !e.ok { return fail(format!("encode with {spec} failed without any sink failure: {}", e.err)) }
        Ok(e.got)
    }

    pub fn decode(&mut self, spec: &str, seed: u64, b: &[u8]) -> Result<Option<RgbImage>, Fail> {
        let r = self.cell.run(seed, STEP_LIMIT, |p| put_dec(p, &codec(spec), b));
        self.note(&r);
        if r.end != End::Done { return fail(format!("decode with {spec} {}", r.end.text())) }
        Ok(get_dec(&mut Reader(&r.data)))
    }

    pub fn exec(&mut self, c: &Case) -> Result<(), Fail> {
        self.form = c.form;
        let img = formed(c.imgs[0].build(), c.form);
        let r = match c.prop.as_str() {
            "C01" => self.c01(c, &img),
            "C02" => self.c02(c, &img),
            "C03" => self.c03(c, &img),
            "C04" => self.c04(c, &img),
            "C09" => self.c09(c, &img),
            "C10" | "C11" => self.clusters(c, &img),
            "C15" => self.c15(c, &img),
            "C16" => self.c16(c),
            "C25" => self.c25(c, &img),
            "C18" => self.c18(c, &img),
            p => crate::harness_error(&format!("no codec-level simulation for {p}")),
        };
        r
    }

    fn state(&mut self, c: &Case, b: &[u8], extra: u64) {
        self.st.seen("states", mix2(mix2(hash_bytes(c.codec.as_bytes()), hash_bytes(b)), extra));
    }

    fn c01(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let e = self.encode(&c.codec, c.seed_a, img, &c.sinks[0], 0)?;
        if !e.ok { return fail(format!("encode with {} failed without any sink failure: {}", c.codec, e.err)) }
        self.state(c, &e.got, 0);
        let d = self.decode(&c.codec, c.seed_b, &e.got)?;
        match d {
            None => fail(format!("{}: the complete stream of {} bytes was not decoded", c.codec, e.got.len())),
            Some(d) => same_image(img, &d, &c.codec),
        }
    }

    fn c02(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let b = self.stream(&c.codec, c.seed_a, img)?;
        self.state(c, &b, 0);
        let n = b.len() as u64;
        let mut cuts: Vec<u64> = c.cuts.iter().map(|p| p.at(n)).collect();
        if c.all_cuts && n <= 4096 { cuts = (0..n).collect() }
        cuts.sort();
        cuts.dedup();
        self.st.add("fault:stream_cut", cuts.len() as u64);
        let mut rest = &cuts[..];
        while !rest.is_empty() {
            let list = rest;
            let bytes = &b;
            let spec = &c.codec;
            // one process per chunk of cuts; only the first bytes of the result are needed
            let r = self.cell.run(c.seed_b, STEP_LIMIT, |p| {
                let k = codec(spec);
                for (i, cut) in list.iter().enumerate() {
                    p.progress(i as u64);
                    seam::restart_steps();
                    let mut it = bytes[..*cut as usize].iter().cloned();
                    p.put_u64(k.decode(&mut it).is_some() as u64);
                    if i >= 64 { break }
                }
            });
            self.note(&r);
            let bad = |i: usize, what: String| Err(Fail {
                msg: format!("{}: decoding the first {} of {} bytes {}", c.codec, list[i], n, what),
                cut: Some(Pos::Abs(list[i])),
            });
            let mut rd = Reader(&r.data);
            let done = r.data.len() / 8;
            for i in 0..done {
                if rd.u64() != 0 { return bad(i, "gave an image".into()) }
            }
            if r.end != End::Done {
                return bad((r.progress as usize).min(list.len() - 1), r.end.text());
            }
            rest = &rest[done..];
        }
        Ok(())
    }

    fn c03(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let full = self.stream(&c.codec, c.seed_a, img)?;
        for s in &c.sinks {
            let e = self.encode(&c.codec, c.seed_a, img, s, full.len() as u64)
                .map_err(|f| Fail { msg: format!("{} (sink {})", f.msg, s.text()), ..f })?;
            let at = if e.delivered { e.at_fail } else { e.got.len() };
            self.state(c, &e.got, mix2(at as u64, e.ok as u64));
            if at > full.len() || e.got[..at] != full[..at] {
                return fail(format!("{}: the {} bytes accepted before the failure are not a prefix of the stream (sink {})", c.codec, at, s.text()));
            }
            if e.delivered {
                self.st.add(&format!("fault:{}{}", if s.flush { "flush_" } else { "write_" }, KINDS[s.kind]), 1);
                if e.ok && (e.got != full || s.sticky || e.flush_failed) {
                    return fail(format!("{}: encode reported success although the sink failed after {} of {} bytes (sink {})", c.codec, at, full.len(), s.text()));
                }
            } else {
                self.st.add("sink_failure_not_reached", 1);
                if !e.ok { return fail(format!("{}: encode failed ({}) although no failure was delivered (sink {})", c.codec, e.err, s.text())) }
                if e.got != full { return fail(format!("{}: encode reported success but {} of {} bytes were written (sink {})", c.codec, e.got.len(), full.len(), s.text())) }
            }
        }
        Ok(())
    }

    fn c04(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let full = self.stream(&c.codec, c.seed_a, img)?;
        for s in &c.sinks {
            let e = self.encode(&c.codec, c.seed_a, img, s, full.len() as u64)?;
            self.state(c, &e.got, hash_bytes(s.text().as_bytes()));
            if !e.ok { return fail(format!("{}: encode failed ({}) with a sink that only paces writes (sink {})", c.codec, e.err, s.text())) }
            if e.got != full {
                let at = e.got.iter().zip(&full).position(|(a, b)| a != b).unwrap_or(e.got.len().min(full.len()));
                return fail(format!("{}: the accepted bytes differ from the stream at byte {} ({} of {} bytes, sink {})", c.codec, at, e.got.len(), full.len(), s.text()));
            }
        }
        Ok(())
    }

    fn c09(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let delta = c.codec == "delta";
        let (freqs, want): (Vec<(Vec<u8>, u64)>, u64) = if delta {
            let f = model::diff_freqs(img);
            (f.into_iter().map(|(k, v)| (k.iter().flat_map(|x| x.to_le_bytes()).collect(), v)).collect(), model::delta_size(img))
        } else {
            let f = model::color_freqs(img);
            (f.into_iter().map(|(k, v)| (k.to_vec(), v)).collect(), model::hufman_size(img))
        };
        for seed in [c.seed_a, c.seed_b] {
            let b = self.stream(&c.codec, seed, img)?;
            self.state(c, &b, 0);
            if b.len() as u64 != want {
                return fail(format!("{}: stream of {} bytes, a minimal prefix code needs {} ({} symbols)", c.codec, b.len(), want, freqs.len()));
            }
            let dims = [img.width().to_le_bytes(), img.height().to_le_bytes()].concat();
            if b[..8] != dims[..] { return fail(format!("{}: the stream does not start with the dimensions", c.codec)) }
            // leaves: tag, then the symbol's 6 bytes, or a length and 3 bytes
            let Some((mut syms, lens, used)) = model::parse_tree(&b[8..], if delta { 6 } else { 11 }) else {
                return fail(format!("{}: the decoder in the stream is not a prefix tree with the expected leaves", c.codec));
            };
            if !delta { for s in syms.iter_mut() { s.drain(..8); } }
            let table: std::collections::HashMap<&[u8], u64> = freqs.iter().map(|f| (&f.0[..], f.1)).collect();
            let bits: u64 = syms.iter().zip(&lens).map(|(s, l)| table.get(&s[..]).cloned().unwrap_or(0) * *l as u64).sum();
            let mut a: Vec<_> = syms.clone();
            a.sort();
            a.dedup();
            let mut f: Vec<_> = freqs.iter().map(|f| f.0.clone()).collect();
            f.sort();
            if a.len() != syms.len() || a != f {
                return fail(format!("{}: {} leaves ({} distinct) for {} distinct symbols", c.codec, syms.len(), a.len(), freqs.len()));
            }
            let min = model::min_prefix_bits(&freqs.iter().map(|f| f.1).collect::<Vec<_>>());
            if bits != min {
                return fail(format!("{}: payload of {} bits, minimum {}", c.codec, bits, min));
            }
            let payload = b.len() - 8 - used;
            if payload as u64 != (min + 7) / 8 {
                return fail(format!("{}: payload of {} bytes for {} bits", c.codec, payload, min));
            }
            self.st.max("code_length", lens.iter().cloned().max().unwrap_or(0) as u64);
            self.st.max("symbols", syms.len() as u64);
        }
        Ok(())
    }

    fn clusters(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let b = self.stream(&c.codec, c.seed_a, img)?;
        self.state(c, &b, 0);
        let d = self.decode(&c.codec, c.seed_b, &b)?;
        let Some(d) = d else { return fail(format!("{}: the complete stream was not decoded", c.codec)) };
        self.contract(&c.codec, img, &b, &d)
    }

    pub fn contract(&mut self, spec: &str, img: &RgbImage, b: &[u8], d: &RgbImage) -> Result<(), Fail> {
        let n: u64 = param(spec);
        let r = if spec.starts_with("cluster") {
            self.st.max("clusters_used", model::color_freqs(d).len() as u64);
            model::check_reduced(img, d, n)
        } else {
            model::check_voronoi(img, b, d, n)
        };
        r.or_else(|m| fail(format!("{spec}: {m}")))
    }

    fn c15(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let b = self.stream(&c.codec, c.seed_a, img)?;
        for d in &c.dmgs {
            let mut x = b.clone();
            for k in d { k.apply(&mut x, header(&c.codec)); }
            if x == b { self.st.add("damage_without_effect", 1); continue }
            for k in d { self.st.add(&format!("fault:byte_{}", k.text().split(':').next().unwrap()), 1); }
            let r = self.decode(&c.codec, c.seed_b, &x)
                .map_err(|f| Fail { msg: format!("{} after damage {}", f.msg, dmg_text(d)), ..f })?;
            self.state(c, &x, r.is_some() as u64);
            self.st.add(if r.is_some() { "damaged_decoded" } else { "damaged_refused" }, 1);
            if let Some(r) = r {
                if r.dimensions() != img.dimensions() {
                    return fail(format!("{}: damaged stream of a {:?} image decoded to {:?} (damage {})", c.codec, img.dimensions(), r.dimensions(), dmg_text(d)));
                }
            }
        }
        Ok(())
    }

    /// What lies behind a stream doesn't matter, and isn't touched
    fn c25(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let b = self.stream(&c.codec, c.seed_a, img)?;
        let x = self.stream(&c.codec, c.seed_b, &c.imgs[1].build())?;
        let Some(want) = self.decode(&c.codec, c.seed_b, &b)? else { return fail(format!("{}: the complete stream was not decoded", c.codec)) };
        let other = self.decode(&c.codec, c.seed_b, &x)?;
        for t in &c.tails {
            self.st.add(&format!("fault:tail_{}", t.text().split(':').next().unwrap()), 1);
            self.state(c, &b, hash_bytes(t.text().as_bytes()));
            let (b, x, spec) = (&b, &x, &c.codec);
            let r = self.cell.run(c.seed_b, STEP_LIMIT, |p| {
                let taken = std::cell::Cell::new(0u64);
                let k = codec(spec);
                let n = b.len() as u64;
                let mut it = std::iter::from_fn(|| {
                    let i = taken.get();
                    if i > n + (1 << 20) { return None }
                    taken.set(i + 1);
                    if i < n { Some(b[i as usize]) } else { t.byte(i - n, b, x) }
                });
                put_image(p, k.decode(&mut it));
                p.put_u64(taken.get());
                // one stream after the other
                if t.is("same") || t.is("other") { put_image(p, k.decode(&mut it)) }
            });
            self.note(&r);
            let ctx = |m: String| format!("{spec}: {m}, {} bytes followed by {}", b.len(), t.text());
            if r.end != End::Done { return fail(ctx(format!("decode {}", r.end.text()))) }
            let mut rd = Reader(&r.data);
            let got = get_dec(&mut rd);
            if got.as_ref() != Some(&want) { return fail(ctx(format!("decode gave {}", dim_text(&got)))) }
            let taken = rd.u64();
            self.st.max("bytes_taken_too_many", taken.saturating_sub(b.len() as u64));
            if taken != b.len() as u64 { return fail(ctx(format!("decode took {taken} bytes"))) }
            if t.is("same") || t.is("other") {
                let got = get_dec(&mut rd);
                if got.as_ref() != (if t.is("same") { Some(&want) } else { other.as_ref() }) { return fail(ctx(format!("the second stream decoded to {}", dim_text(&got)))) }
            }
        }
        Ok(())
    }

    fn c18(&mut self, c: &Case, img: &RgbImage) -> Result<(), Fail> {
        let x = self.stream(&c.codec, c.seed_a, img)?;
        if deterministic(&c.codec) {
            let y = self.stream(&c.codec, c.seed_b, img)?;
            if x != y {
                let at = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
                return fail(format!("{}: two processes wrote different streams ({} and {} bytes, first difference at byte {})", c.codec, x.len(), y.len(), at));
            }
        }
        self.state(c, &x, 0);
        let mut streams = vec![x.clone()];
        for d in &c.dmgs { let mut z = x.clone(); for k in d { k.apply(&mut z, header(&c.codec)) } streams.push(z) }
        for (i, s) in streams.iter().enumerate() {
            let a = self.decode(&c.codec, c.seed_a, s);
            let b = self.decode(&c.codec, c.seed_b, s);
            let what = if i == 0 { String::new() } else { format!(" (damage {})", dmg_text(&c.dmgs[i - 1])) };
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => if i == 0 && a.is_none() { return fail(format!("{}: the complete stream was not decoded", c.codec)) },
                (Ok(_), Ok(_)) => return fail(format!("{}: two processes decoded the same stream differently{}", c.codec, what)),
                // a decoder that fails on damaged bytes is another property's business
                (Err(_), Err(_)) if i > 0 => (),
                (Err(f), _) | (_, Err(f)) => return fail(format!("{}{}", f.msg, what)),
            }
        }
        Ok(())
    }

    fn c16(&mut self, c: &Case) -> Result<(), Fail> {
        let imgs: Vec<RgbImage> = c.imgs.iter().map(|i| formed(i.build(), c.form)).collect();
        let mut streams = vec![];
        for i in &imgs { streams.push(self.stream(&c.codec, c.seed_a, i)?) }
        let input = |op: &Op| -> Vec<u8> {
            match op {
                Op::Dec(i, j) if *j < 0 => streams[*i].clone(),
                Op::Dec(i, j) => { let mut x = streams[*i].clone(); for d in &c.dmgs[*j as usize] { d.apply(&mut x, header(&c.codec)) } x }
                Op::Cut(i, j) => { let s = &streams[*i]; s[..c.cuts[*j].at(s.len() as u64) as usize].to_vec() }
                Op::Enc(..) | Op::Other(..) | Op::Many(..) => vec![],
            }
        };
        let perfect = SinkSpec::perfect();
        let spec = &c.codec;
        let session = self.cell.run(c.seed_b, STEP_LIMIT, |p| {
            let k = &codec(spec);
            let others: Vec<_> = c.ops.iter().map(|o| match o { Op::Other(_, j) if j % 2 == 0 => Some(codec(&sibling(spec, *j))), _ => None }).collect();
            for (n, op) in c.ops.iter().enumerate() {
                p.progress(n as u64);
                seam::restart_steps();
                let one = |p: &mut Port| match op {
                    Op::Enc(i, j) => put_enc(p, k, &imgs[*i], c.form, if *j < 0 { &perfect } else { &c.sinks[*j as usize] }, streams[*i].len() as u64),
                    Op::Other(i, j) => {
                        let new;
                        let o = match &others[n] { Some(o) => o, None => { new = codec(&sibling(spec, *j)); &new } };
                        let mut v = vec![];
                        if o.encode(&imgs[*i].clone().into(), &mut v).is_ok() { let _ = o.decode(&mut v.into_iter()); }
                    }
                    Op::Many(i, n) => {
                        let like = &c.imgs[*i];
                        let mut bad = 0;
                        for j in 0..*n {
                            let img = if j % 4 == 0 { imgs[*i].clone() } else { formed(ImgSpec { seed: like.seed + j as u64, ..like.clone() }.build(), c.form) };
                            let mut v = vec![];
                            let ok = k.encode(&dynamic(&img, c.form), &mut v).is_ok();
                            match k.decode(&mut v.into_iter()) {
                                Some(d) if ok => if k.is_lossless() && d.to_rgb8() != img { bad += 1 },
                                _ => bad += 1,
                            }
                        }
                        p.put_u64(bad);
                    }
                    _ => put_dec(p, k, &input(op)),
                };
                if c.fresh_threads {
                    let mut q = *p;
                    std::thread::scope(|s| { s.spawn(move || one(&mut q)).join().unwrap() });
                } else {
                    one(p)
                }
            }
        });
        self.note(&session);
        self.st.add("session_ops", c.ops.len() as u64);
        self.state(c, &session.data, 0);
        let mut rd = Reader(&session.data);
        for (n, op) in c.ops.iter().enumerate() {
            if session.end != End::Done && n as u64 >= session.progress {
                // does the operation also end like this on its own?
                let alone = match op {
                    Op::Enc(i, j) => self.encode(spec, c.seed_b, &imgs[*i], if *j < 0 { &perfect } else { &c.sinks[*j as usize] }, streams[*i].len() as u64).is_ok(),
                    Op::Other(..) => false,
                    Op::Many(..) => true,
                    _ => self.decode(spec, c.seed_b, &input(op)).is_ok(),
                };
                if alone { return fail(format!("{spec}: operation {} ({}) {} although it works on its own", n, op.text(), session.end.text())) }
                return Ok(());
            }
            let ctx = |m: String| format!("{spec}: operation {} ({}) of a session on one codec object: {}", n, op.text(), m);
            match op {
                Op::Enc(i, j) => {
                    let got = get_enc(&mut rd, self.st);
                    let alone = self.encode(spec, c.seed_a, &imgs[*i], if *j < 0 { &perfect } else { &c.sinks[*j as usize] }, streams[*i].len() as u64)?;
                    if got.delivered == alone.delivered && got.ok != alone.ok {
                        return fail(ctx(format!("succeeded: {}, alone: {}", got.ok, alone.ok)));
                    }
                    if deterministic(spec) && got.got != alone.got {
                        return fail(ctx(format!("wrote {} bytes that differ from the {} bytes written alone", got.got.len(), alone.got.len())));
                    }
                    if got.ok && !deterministic(spec) {
                        if (spec == "hufman" || spec == "delta") && got.got.len() != streams[*i].len() {
                            return fail(ctx(format!("wrote {} bytes, alone {}", got.got.len(), streams[*i].len())));
                        }
                        let Some(d) = self.decode(spec, c.seed_a, &got.got)? else { return fail(ctx("wrote a stream that cannot be decoded".into())) };
                        if spec == "hufman" || spec == "delta" { same_image(&imgs[*i], &d, spec).map_err(|f| Fail { msg: ctx(f.msg), ..f })? }
                        else { self.contract(spec, &imgs[*i], &got.got, &d).map_err(|f| Fail { msg: ctx(f.msg), ..f })? }
                    }
                }
                Op::Other(..) => (),
                Op::Many(..) => { let bad = rd.u64(); if bad > 0 { return fail(ctx(format!("{bad} images were not given back"))) } }
                _ => {
                    let got = get_dec(&mut rd);
                    let alone = self.decode(spec, c.seed_a, &input(op))?;
                    if got != alone { return fail(ctx(format!("decoded {}, alone {}", dim_text(&got), dim_text(&alone)))) }
                }
            }
        }
        Ok(())
    }
}

fn dim_text(i: &Option<RgbImage>) -> String {
    i.as_ref().map_or("nothing".into(), |i| format!("a {}x{} image", i.width(), i.height()))
}

pub fn param(spec: &str) -> u64 {
    spec.split(|c| c == '(' || c == ')').nth(1).and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Another codec, of the same family where there is one
pub fn sibling(spec: &str, j: usize) -> String {
    let n = param(spec).wrapping_add(j as u64 % 5).max(1).wrapping_add(1).max(1);
    match spec.split('(').next().unwrap() {
        f @ ("cluster-colors" | "voronoi") => format!("{f}({n})"),
        "hilbert" if j % 3 == 0 => "hilbert(zip)".into(),
        "hilbert" => format!("hilbert(rle({}))", 40 * (j % 4)),
        _ => ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(zip)"][j % 5].into(),
    }
}

pub fn deterministic(spec: &str) -> bool { spec.starts_with("zip") || spec.starts_with("hilbert") }

pub fn same_image(a: &RgbImage, b: &RgbImage, spec: &str) -> Result<(), Fail> {
    if a.dimensions() != b.dimensions() {
        return fail(format!("{spec}: a {:?} image came back as {:?}", a.dimensions(), b.dimensions()));
    }
    match a.enumerate_pixels().zip(b.pixels()).find(|((_, _, p), q)| p != q) {
        None => Ok(()),
        Some(((x, y, p), q)) => {
            let n = a.pixels().zip(b.pixels()).filter(|(p, q)| p != q).count();
            fail(format!("{spec}: {} of {} pixels differ, the first at ({x},{y}): {:?} became {:?}", n, a.width() * a.height(), p.0, q.0))
        }
    }
}

#[allow(dead_code)]
pub fn describe(i: &ImgSpec) -> String { i.text() }
