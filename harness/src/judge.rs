//! Oracles over finished process-level runs.
use crate::exec::{deterministic, param};
use crate::model;
use crate::pcase::*;
use crate::proc::*;
use image::RgbImage;
use std::collections::BTreeMap;

pub type R = Result<(), String>;

pub struct Judge<'a> { pub c: &'a PCase, pub d: &'a Done, pub p2: &'a Proc, pub memo: &'a Memo }

struct Row { name: String, size: f64, ratio: f64, err: f64 }

fn lossless(codec: &str) -> bool {
    ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(rle(0))", "hilbert(zip)"].contains(&codec)
}

fn short(s: &str) -> String {
    let t: String = s.chars().take(200).collect();
    t.replace('\n', " | ")
}

fn end_text(e: &End) -> String {
    match e {
        End::Exit(c) => format!("exited with status {c}"),
        End::Crashed => "was crashed by the simulation".into(),
        End::Deadlock => "deadlocked: every thread waits, nothing can wake any of them".into(),
        End::StepCap => "did not finish within the step limit".into(),
        End::Signal(s) => format!("was killed by signal {s}"),
        End::CpuLimit => "used up its processor time without finishing".into(),
    }
}

impl<'a> Judge<'a> {
    pub fn check(&self) -> R {
        match self.c.prop.as_str() {
            "C05" => self.c05(),
            "C06" => self.c06(),
            "C07" => self.c07(),
            "C08" => self.c08(),
            "C12" => self.c12(),
            "C13" => self.c13(),
            "C14" => self.c14(),
            "C16" | "C18" => self.c16(),
            "C17" => self.c17(),
            "C22" => self.c22(),
            "C23" => self.c23(),
            "C24" => self.c24(),
            p => crate::harness_error(&format!("no process-level oracle for {p}")),
        }
    }

    fn results(&self) -> &'a [u8] { self.d.bytes(&self.c.results()).unwrap_or(&[]) }

    fn said(&self) -> String {
        let s = self.d.out.stderr.trim();
        if s.is_empty() { "nothing on stderr".into() } else { format!("stderr: {}", short(s)) }
    }

    fn expect_exit(&self, code: i32) -> R {
        if self.d.out.end == End::Exit(code) { Ok(()) } else { Err(format!("the run {} instead of exiting with status {code} ({})", end_text(&self.d.out.end), self.said())) }
    }

    fn parse_header(rec: &[String]) -> Result<[usize; 4], String> {
        let at = |n: &str| rec.iter().position(|x| x == n);
        match (at("name"), at("compressed_size"), at("compression_ratio"), at("error")) {
            (Some(a), Some(b), Some(c), Some(d)) if rec.len() == 4 => Ok([a, b, c, d]),
            _ => Err(format!("the results file does not start with the header but with {:?}", rec)),
        }
    }

    fn parse_row(rec: &[String], h: &[usize; 4]) -> Result<Row, String> {
        let bad = || format!("not a row of the results file: {:?}", rec);
        if rec.len() != 4 { return Err(bad()) }
        let num = |i: usize| rec[h[i]].parse::<f64>().map_err(|_| bad());
        Ok(Row { name: rec[h[0]].clone(), size: num(1)?, ratio: num(2)?, err: num(3)? })
    }

    /// The saved picture of this file, if it is complete and valid
    fn picture(&self, f: &FileSpec) -> Result<RgbImage, String> {
        let path = f.out("png");
        let b = self.d.bytes(&path).ok_or_else(|| format!("{path} does not exist"))?;
        if let Some(n) = after_png(b) { return Err(format!("{path} goes on for {n} bytes after the picture")) }
        image::load_from_memory_with_format(b, image::ImageFormat::Png)
            .map(|i| i.to_rgb8())
            .map_err(|e| format!("{path} ({} bytes) is not a complete picture: {e}", b.len()))
    }

    fn check_picture(&self, f: &FileSpec, orig: &RgbImage, err: f64) -> Result<RgbImage, String> {
        let p = self.picture(f).map_err(|e| format!("row of {:?} has error {err}, but {e}", f.arg))?;
        if p.dimensions() != orig.dimensions() {
            return Err(format!("{} is {:?}, the input is {:?}", f.out("png"), p.dimensions(), orig.dimensions()));
        }
        let m = model::mse(orig, &p);
        if !model::close(m, err) {
            return Err(format!("row of {:?} has error {err}, but {} differs from the input by {m}", f.arg, f.out("png")));
        }
        Ok(p)
    }

    /// Is this row right for its file? `strict`: also against independent models
    fn check_row(&self, row: &Row, f: &FileSpec, strict: bool, pictures: bool) -> R {
        let Some(orig) = self.memo.image(f) else { return Err(format!("row for {:?}, which is not a readable image", f.arg)) };
        let px = orig.width() as f64 * orig.height() as f64;
        let ctx = |m: String| format!("row of {:?} ({}x{}): {m}", f.arg, orig.width(), orig.height());
        if !model::close(row.ratio, row.size / (px * 24.0) * 100.0) {
            return Err(ctx(format!("ratio {} for {} bytes", row.ratio, row.size)));
        }
        let codec = self.c.codec.as_str();
        if lossless(codec) && row.err != 0.0 { return Err(ctx(format!("error {} with a lossless codec", row.err))) }
        if deterministic(codec) || lossless(codec) {
            let s = solo_bench(self.p2, self.memo, codec, f);
            let (size, err) = self.solo_row(&s, f).map_err(ctx)?;
            if row.size != size || !model::close(row.err, err) {
                return Err(ctx(format!("size {} error {}, alone {} and {}", row.size, row.err, size, err)));
            }
        }
        if strict {
            match codec {
                "hufman" => if row.size != model::hufman_size(&orig) as f64 { return Err(ctx(format!("size {}, the stream has {} bytes", row.size, model::hufman_size(&orig)))) },
                "delta" => if row.size != model::delta_size(&orig) as f64 { return Err(ctx(format!("size {}, the stream has {} bytes", row.size, model::delta_size(&orig)))) },
                c if deterministic(c) => {
                    let raw = format!("raw:{}", f.img().map_or(String::new(), |x| x.1.text()));
                    // (formats that change pixels are compared through their solo runs only)
                    if f.img().map_or(false, |x| ["png", "bmp", "ppm"].contains(&x.0.as_str())) {
                        if let Some(s) = solo_op(self.p2, self.memo, c, "e", &raw) {
                            if s[0] == b'S' {
                                if row.size != (s.len() - 1) as f64 { return Err(ctx(format!("size {}, the stream has {} bytes", row.size, s.len() - 1))) }
                                if let Some(d) = self.decoded(c, &s[1..]) {
                                    let m = model::mse(&orig, &d);
                                    if !model::close(m, row.err) { return Err(ctx(format!("error {}, the decoded image differs by {m}", row.err))) }
                                }
                            }
                        }
                    }
                }
                _ => (),
            }
        }
        if codec.starts_with("voronoi") {
            let k = (row.size - 16.0) / 19.0;
            if k.fract() != 0.0 || k < 1.0 || k > param(codec) as f64 { return Err(ctx(format!("size {} with {codec}", row.size))) }
        }
        if row.err == 0.0 {
            if codec.starts_with("cluster") && row.size != model::hufman_size(&orig) as f64 {
                return Err(ctx(format!("size {} with error 0, a hufman stream of this image has {} bytes", row.size, model::hufman_size(&orig))));
            }
        } else if pictures {
            let p = self.check_picture(f, &orig, row.err)?;
            if codec.starts_with("cluster") {
                if row.size != model::hufman_size(&p) as f64 {
                    return Err(ctx(format!("size {}, a hufman stream of {} has {} bytes", row.size, f.out("png"), model::hufman_size(&p))));
                }
                if strict { model::check_reduced(&orig, &p, param(codec)).map_err(ctx)? }
            }
        }
        Ok(())
    }

    fn decoded(&self, codec: &str, stream: &[u8]) -> Option<RgbImage> {
        // a process of its own decodes the stream
        let out = solo_op_bytes(self.p2, self.memo, codec, stream)?;
        if out[0] != b'S' { return None }
        let u = |i: usize| u32::from_le_bytes(out[i..i + 4].try_into().unwrap());
        RgbImage::from_raw(u(1), u(5), out[9..].to_vec())
    }

    fn solo_row(&self, s: &Solo, f: &FileSpec) -> Result<(f64, f64), String> {
        let b = s.out.get(&self.c.results()).ok_or("processed alone, it leaves no results file")?;
        let (recs, _) = csv_records(b);
        if s.end != End::Exit(0) || recs.len() != 2 {
            return Err(format!("processed alone, it gives no row (the run {})", end_text(&s.end)));
        }
        let h = Self::parse_header(&recs[0])?;
        let r = Self::parse_row(&recs[1], &h)?;
        if r.name != f.shown() { return Err(format!("processed alone, its row is named {:?}", r.name)) }
        Ok((r.size, r.err))
    }

    /// Complete results file: header and correct rows; which files have one
    fn rows(&self, strict: bool, pictures: bool) -> Result<BTreeMap<String, bool>, String> {
        let b = self.results();
        let (recs, rest) = csv_records(b);
        if !rest.is_empty() { return Err(format!("the results file ends in an unfinished line {:?}", short(&String::from_utf8_lossy(&rest)))) }
        let mut m = BTreeMap::new();
        if recs.is_empty() { return Ok(m) }
        let h = Self::parse_header(&recs[0])?;
        for rec in &recs[1..] {
            let row = Self::parse_row(rec, &h)?;
            let Some(f) = self.c.files.iter().find(|f| f.shown() == row.name) else { return Err(format!("row {:?} belongs to no input file", rec)) };
            if m.insert(f.arg.clone(), true).is_some() { return Err(format!("{:?} has more than one row", row.name)) }
            // files of the same name overwrite each other's pictures
            let alone = self.c.files.iter().filter(|g| g.stem() == f.stem()).count() == 1;
            self.check_row(&row, f, strict, pictures && alone)?;
        }
        Ok(m)
    }

    fn messages(&self) -> usize {
        self.d.out.stderr.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("Saved to ")).count()
    }

    fn c05(&self) -> R {
        self.expect_exit(0)?;
        if self.d.bytes(&self.c.results()).is_none() { return Err(format!("{} was not created", self.c.results())) }
        let rows = self.rows(true, true)?;
        for f in &self.c.files {
            if self.memo.image(f).is_some() && !rows.contains_key(&f.arg) {
                return Err(format!("no row for {:?} ({} rows; {})", f.arg, rows.len(), self.said()));
            }
        }
        Ok(())
    }

    fn eintr_on_input(&self) -> bool {
        self.c.rules.iter().zip(&self.d.out.fired).any(|(r, n)| *n > 0 && r.action == ACT_ERR && r.arg == 4 && r.op & (OP_READ | OP_SEEK) != 0)
    }

    /// Could a fault have legitimately cost this file its row?
    fn excused(&self, f: &FileSpec) -> bool {
        let i = self.d.flags(&f.path());
        let o = self.d.flags(&f.out("png"));
        (i | o) & PF_HARD != 0 || (i & PF_SOFT != 0 && self.eintr_on_input())
    }

    fn c06(&self) -> R {
        self.expect_exit(0)?;
        let rows = self.rows(false, true)?;
        let mut missing = vec![];
        for f in &self.c.files {
            if rows.contains_key(&f.arg) { continue }
            missing.push(f.arg.clone());
            if self.memo.image(f).is_some() && !self.excused(f) {
                return Err(format!("no row for {:?}, although nothing is wrong with it ({})", f.arg, self.said()));
            }
        }
        if self.messages() < missing.len() {
            return Err(format!("{} files without a row ({}), but only {} messages on standard error ({})", missing.len(), missing.join(" "), self.messages(), self.said()));
        }
        Ok(())
    }

    fn c07(&self) -> R {
        let fl = self.d.flags(&self.c.results());
        match self.d.out.end {
            End::Exit(0) => {
                if fl & PF_HARD != 0 {
                    let b = self.rows(false, false);
                    return Err(format!("the results file could not be created or written without errors, but the exit status is 0 ({}; {})",
                        match b { Ok(r) => format!("{} of {} rows are there", r.len(), self.c.files.len()), Err(e) => e }, self.said()));
                }
                let rows = self.rows(false, false)?;
                let missing: Vec<_> = self.c.files.iter().filter(|f| !rows.contains_key(&f.arg)).collect();
                if self.messages() < missing.len() {
                    return Err(format!("exit status 0, but {} files have no row and only {} messages were printed ({})", missing.len(), self.messages(), self.said()));
                }
                for f in &missing {
                    if self.memo.image(f).is_some() && !self.excused(f) { return Err(format!("exit status 0, but {:?} has no row although nothing went wrong with it ({})", f.arg, self.said())) }
                }
                Ok(())
            }
            End::Exit(_) => {
                let stdio = self.c.rules.iter().zip(&self.d.out.fired).any(|(r, n)| *n > 0 && r.op & (OP_STDOUT | OP_SPAWN | 2048) != 0 && r.action == ACT_ERR && r.arg != 4);
                if fl & PF_HARD == 0 && !stdio && self.c.outdir {
                    return Err(format!("nothing failed on the results file, but the run {} ({})", end_text(&self.d.out.end), self.said()));
                }
                Ok(())
            }
            ref e => Err(format!("the run {}", end_text(e))),
        }
    }

    fn c08(&self) -> R {
        let b = self.results();
        let (recs, _) = csv_records(b);
        if self.d.out.end != End::Exit(0) {
            if let End::Exit(_) = self.d.out.end {} else { return Err(format!("the run {}", end_text(&self.d.out.end))) }
        }
        let lossless = lossless(&self.c.codec);
        // a failed write, reported by the exit status, may have left anything in the file
        let torn = self.d.flags(&self.c.results()) & PF_HARD != 0 && self.d.out.end != End::Exit(0);
        if let Some(h) = recs.first().and_then(|r| Self::parse_header(r).ok()) {
            for rec in &recs[1..] {
                let row = match Self::parse_row(rec, &h) { Ok(r) => r, Err(_) if torn => continue, Err(m) => return Err(m) };
                let Some(f) = self.c.files.iter().find(|f| f.shown() == row.name) else { continue };
                let Some(orig) = self.memo.image(f) else { continue };
                if lossless && row.err != 0.0 { return Err(format!("row of {:?} has error {} with a lossless codec", f.arg, row.err)) }
                if row.err != 0.0 { self.check_picture(f, &orig, row.err)?; }
                else if deterministic(&self.c.codec) {
                    let s = solo_bench(self.p2, self.memo, &self.c.codec, f);
                    if let Ok((_, e)) = self.solo_row(&s, f) { if e != 0.0 { return Err(format!("row of {:?} has error 0, alone {e}", f.arg)) } }
                }
            }
        }
        if lossless {
            if let Some(p) = self.d.out.paths.iter().find(|p| p.flags & (PF_WOPEN | PF_MUTATED) != 0 && p.name.ends_with(".png")) {
                return Err(format!("a lossless codec saved {}", p.name));
            }
        }
        // without any failure, every readable file has its row (and hence its picture)
        if self.c.rules.is_empty() && self.c.quota == NO_QUOTA && self.c.outdir {
            self.expect_exit(0)?;
            let rows = self.rows(false, true)?;
            for f in &self.c.files {
                if self.memo.image(f).is_some() && !rows.contains_key(&f.arg) { return Err(format!("no row for {:?} ({})", f.arg, self.said())) }
            }
        }
        Ok(())
    }

    fn c12(&self) -> R {
        let mut allowed: Vec<String> = vec![];
        if self.c.mode == "bench" {
            allowed.push(self.c.results());
            if self.c.results()["output/".len()..].contains('/') { return Err(format!("results file {:?} lies elsewhere", self.c.results())) }
            allowed.extend(self.c.files.iter().map(|f| f.out("png")));
        } else {
            for f in &self.c.files { for m in ["rect", "small", "large"] { allowed.push(f.out(&format!("{m}.hilbert.csv"))) } }
        }
        for p in &self.d.out.paths {
            let touched = p.flags & (PF_WOPEN | PF_WROTE | PF_MUTATED | PF_ESCAPE) != 0;
            // making the folder the results go to is no harm
            if p.name == "output" && p.flags & (PF_WOPEN | PF_WROTE | PF_ESCAPE) == 0 { continue }
            if touched && !allowed.contains(&p.name) {
                return Err(format!("the program {} {:?}{}", if p.flags & PF_MUTATED != 0 { "changed" } else { "opened for writing" }, p.name,
                    if p.flags & PF_ESCAPE != 0 { " outside its folder (prevented by the simulation)" } else { "" }));
            }
        }
        let keys: std::collections::BTreeSet<&String> = self.d.before.keys().chain(self.d.after.keys()).collect();
        for k in keys {
            if allowed.contains(k) { continue }
            let (a, b) = (self.d.before.get(k), self.d.after.get(k));
            if a != b {
                return Err(format!("{k:?} was {}", match (a, b) { (None, _) => "created", (_, None) => "removed", _ => "changed" }));
            }
        }
        Ok(())
    }

    fn c13(&self) -> R {
        match self.d.out.end {
            End::Crashed | End::Exit(_) => (),
            // an allocation failed: the process aborts
            End::Signal(6) if self.d.out.mem_hits > 0 => (),
            ref e => return Err(format!("the run {}", end_text(e))),
        }
        let path = self.c.results();
        if self.d.flags(&path) & PF_WOPEN == 0 {
            if self.d.before.get(&path) != self.d.after.get(&path) { return Err(format!("{path} changed although the run never opened it")) }
            return Ok(());
        }
        let b = self.results();
        let (recs, rest) = csv_records(b);
        if recs.is_empty() {
            // (a part of) the header
            let ok = self.c.files.iter().filter(|f| self.memo.image(f).is_some()).take(1).all(|f| {
                let s = solo_bench(self.p2, self.memo, &self.c.codec, f);
                s.out.get(&path).map_or(true, |t| t.starts_with(&rest))
            });
            return if ok { Ok(()) } else { Err(format!("the results file contains {:?}", short(&String::from_utf8_lossy(&rest)))) };
        }
        let h = Self::parse_header(&recs[0])?;
        let mut seen = std::collections::BTreeSet::new();
        for rec in &recs[1..] {
            let row = Self::parse_row(rec, &h)?;
            let Some(f) = self.c.files.iter().find(|f| f.shown() == row.name) else { return Err(format!("row {:?} belongs to no input file of this run", rec)) };
            if !seen.insert(row.name.clone()) { return Err(format!("{:?} has more than one row", row.name)) }
            self.check_row(&row, f, false, true)?;
        }
        if !rest.is_empty() {
            let ok = self.c.files.iter().filter(|f| !seen.contains(&f.arg)).any(|f| self.could_start(f, &rest));
            if !ok { return Err(format!("the last line {:?} is not the start of a row of a remaining file", short(&String::from_utf8_lossy(&rest)))) }
        }
        Ok(())
    }

    /// Are these bytes the beginning of this file's row?
    fn could_start(&self, f: &FileSpec, part: &[u8]) -> bool {
        let s = solo_bench(self.p2, self.memo, &self.c.codec, f);
        let Some(b) = s.out.get(&self.c.results()) else { return false };
        let Some(nl) = b.iter().position(|c| *c == b'\n') else { return false };
        let text = &b[nl + 1..];
        if deterministic(&self.c.codec) || lossless(&self.c.codec) { return text.starts_with(part) }
        // random choices: the name is fixed, numbers follow
        let commas = |n: usize| {
            let mut q = false;
            let mut k = 0;
            text.iter().position(|c| { if *c == b'"' { q = !q } if *c == b',' && !q { k += 1 } k == n && *c == b',' && !q })
        };
        let Some(name_end) = commas(1) else { return false };
        let name = &text[..name_end + 1];
        if part.len() <= name.len() { return name.starts_with(part) }
        part.starts_with(name) && part[name.len()..].iter().all(|c| c.is_ascii_digit() || b".,e-+\r".contains(c)) && part[name.len()..].iter().filter(|c| **c == b',').count() <= 2
    }

    fn c14(&self) -> R {
        let any_hard = self.d.out.paths.iter().find(|p| p.flags & PF_HARD != 0 && p.name.starts_with("output/"));
        let in_hard = self.d.out.paths.iter().any(|p| p.flags & PF_HARD != 0 && !p.name.starts_with("output/"));
        let stdio = self.c.rules.iter().zip(&self.d.out.fired).any(|(r, n)| *n > 0 && r.op & (OP_STDOUT | 2048) != 0);
        let bad_input = self.c.files.iter().any(|f| self.memo.image(f).is_none());
        match self.d.out.end {
            End::Exit(0) => (),
            End::Exit(_) => {
                if any_hard.is_none() && !in_hard && !stdio && !bad_input && !self.eintr_on_input() && self.c.outdir {
                    return Err(format!("nothing failed, but the export {} ({})", end_text(&self.d.out.end), self.said()));
                }
                return Ok(());
            }
            ref e => return Err(format!("the export {}", end_text(e))),
        }
        if let Some(p) = any_hard { return Err(format!("writing {} failed, but the exit status is 0", p.name)) }
        for f in &self.c.files {
            let Some(img) = self.memo.image(f) else { return Err(format!("exit status 0, but {:?} is not a readable image", f.arg)) };
            let (w, h) = img.dimensions();
            for m in ["rect", "small", "large"] {
                let path = f.out(&format!("{m}.hilbert.csv"));
                let Some(b) = self.d.bytes(&path) else { return Err(format!("exit status 0, but {path} is missing")) };
                let (recs, rest) = csv_records(b);
                if !rest.is_empty() { return Err(format!("{path} ends in an unfinished line {:?}", short(&String::from_utf8_lossy(&rest)))) }
                if recs.first().map_or(true, |r| r != &["red", "green", "blue"]) { return Err(format!("{path} starts with {:?}", recs.first())) }
                let mut got = vec![];
                for r in &recs[1..] {
                    let v: Vec<u8> = r.iter().filter_map(|x| x.parse().ok()).collect();
                    if v.len() != 3 || r.len() != 3 { return Err(format!("{path}: row {:?}", r)) }
                    got.push([v[0], v[1], v[2]]);
                }
                let side = if m == "small" {
                    let s = (got.len() as f64).sqrt().round() as u32;
                    let empty = got.is_empty() && (w == 1 || h == 1);
                    if !empty && ((s as usize).pow(2) != got.len() || !s.is_power_of_two() || s > w.min(h)) {
                        return Err(format!("{path}: {} rows for a {w}x{h} image are no power-of-two square in it", got.len()));
                    }
                    (s, s)
                } else { (w, h) };
                let mut want: Vec<[u8; 3]> = (0..side.1).flat_map(|y| (0..side.0).map(move |x| (x, y))).map(|(x, y)| img.get_pixel(x, y).0).collect();
                want.sort();
                got.sort();
                if want != got {
                    return Err(format!("{path}: {} rows are not the {} pixels of the {}x{} area", got.len(), want.len(), side.0, side.1));
                }
            }
        }
        Ok(())
    }

    fn c16(&self) -> R {
        self.expect_exit(0)?;
        let codec = &self.c.codec;
        for op in &self.c.ops {
            let v: Vec<&str> = op.splitn(4, ':').collect();
            let (kind, input, out) = (v[1], v[2], v[3]);
            let Some(f) = self.c.files.iter().find(|f| f.arg == input) else { continue };
            let got = self.d.bytes(out).ok_or_else(|| format!("operation {op} left no result"))?;
            // wherever it runs
            let kind = kind.strip_prefix('@').unwrap_or(kind);
            // by a codec object of its own
            let (kind, codec) = match kind.strip_prefix("o=") { Some(o) => ("e", o), None => (kind, &codec[..]) };
            let alone = if kind == "e" { solo_op(self.p2, self.memo, codec, "e", &f.kind) } else {
                let Some(x) = self.memo.file(f) else { continue };
                solo_op_bytes(self.p2, self.memo, codec, &x.bytes)
            };
            let Some(alone) = alone else { continue };
            if kind == "d" || deterministic(codec) {
                if got != alone { return Err(format!("{codec}: operation {op} gave a result of {} bytes that differs from the {} bytes it gives alone", got.len(), alone.len())) }
                continue;
            }
            if got.first() != Some(&b'S') { return Err(format!("{codec}: operation {op} failed, alone it succeeds")) }
            let Some((_, spec)) = f.img() else { continue };
            let orig = spec.build();
            let Some(d) = self.decoded(codec, &got[1..]) else { return Err(format!("{codec}: operation {op} wrote a stream that cannot be decoded")) };
            if codec == "hufman" || codec == "delta" {
                if got.len() != alone.len() { return Err(format!("{codec}: operation {op} wrote {} bytes, alone {}", got.len() - 1, alone.len() - 1)) }
                if d != orig { return Err(format!("{codec}: what operation {op} wrote decodes to another image")) }
            } else if codec.starts_with("cluster") {
                model::check_reduced(&orig, &d, param(codec)).map_err(|m| format!("{codec}: operation {op}: {m}"))?;
            } else {
                model::check_voronoi(&orig, &got[1..], &d, param(codec)).map_err(|m| format!("{codec}: operation {op}: {m}"))?;
            }
        }
        Ok(())
    }

    /// As if there had never been another run in this folder; and what those left is not touched
    fn c22(&self) -> R {
        let after = |m: String| format!("after {} earlier run(s): {m}", self.c.prior.len());
        if self.c.mode == "bench" { self.c05() } else { self.expect_exit(0).and_then(|_| self.c14()) }.map_err(after)?;
        if self.c.mode == "bench" && lossless(&self.c.codec) {
            // pictures of lossy runs
            if let Some(k) = self.d.before.keys().find(|k| k.starts_with("output/") && k.ends_with(".png") && self.d.before.get(*k) != self.d.after.get(*k)) {
                return Err(after(format!("a run of the lossless codec {} {} {k:?}", self.c.codec, if self.d.after.contains_key(k) { "changed" } else { "removed" })));
            }
        }
        self.c12().map_err(after)
    }

    fn c23(&self) -> R {
        let o = &self.d.out;
        if o.fd_hits > 0 { return Err(format!("more than {} files open at the same time with {} worker threads", self.c.fd_cap, self.c.threads)) }
        if self.c.mode != "bench" { self.expect_exit(0)?; self.c14()? }
        else if self.c.rules.iter().any(|r| r.action == ACT_ERR && r.op & (OP_OPEN | OP_READ | OP_WRITE) != 0) { self.c06()? }
        else { self.c05()? }
        let alone = |f: &FileSpec| {
            if self.c.mode == "bench" { return solo_bench(self.p2, self.memo, &self.c.codec, f).mem }
            let mut c = PCase::bare("solo", &self.c.mode, "-");
            c.files = vec![f.clone()];
            solo(self.p2, self.memo, &c).mem
        };
        let mut names = std::collections::BTreeSet::new();
        let one = self.c.files.iter().filter(|f| names.insert(&f.kind)).map(alone).max().unwrap_or(0);
        // with random choices, another run may well take more
        let one = if deterministic(&self.c.codec) || lossless(&self.c.codec) { one } else { one * 5 / 4 };
        let bound = mem_bound(one, self.c.threads, self.c.files.len());
        let took = o.mem_peak.saturating_sub(o.mem_base);
        if took > bound {
            return Err(format!("{took} bytes of heap for {} files and {} worker threads; the most demanding file alone takes {one}, which allows {bound}", self.c.files.len(), self.c.threads));
        }
        Ok(())
    }

    /// Pauses, interruptions and small portions are no failures
    fn c24(&self) -> R {
        if self.c.mode != "bench" { self.expect_exit(0)?; return self.c14() }
        self.c05()?;
        let bad = self.c.files.iter().filter(|f| self.memo.image(f).is_none()).count();
        if self.messages() < bad { return Err(format!("{bad} files without a row, but only {} messages on standard error ({})", self.messages(), self.said())) }
        Ok(())
    }

    fn c17(&self) -> R {
        match self.d.out.end {
            End::Exit(_) => Ok(()),
            ref e => Err(format!("the run {} ({})", end_text(e), self.said())),
        }
    }
}

/// How many bytes come after the last chunk of a PNG file
fn after_png(b: &[u8]) -> Option<usize> {
    let mut at = 8;
    while at + 12 <= b.len() {
        let len = u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize;
        let end = (&b[at + 4..at + 8] == b"IEND") as usize;
        at = at.checked_add(12)?.checked_add(len)?;
        if end == 1 { return if at < b.len() { Some(b.len() - at) } else { None } }
    }
    None
}

/// A stream decoded alone in a process of its own
pub fn solo_op_bytes(p: &Proc, memo: &Memo, codec: &str, bytes: &[u8]) -> Option<Vec<u8>> {
    let key = format!("hex:{}", crate::util::hex(bytes));
    solo_op(p, memo, codec, "d", &key)
}

/// What a run may take that holds at most one file per worker thread at any time
pub fn mem_bound(one: u64, threads: u32, files: usize) -> u64 {
    one * threads as u64 + files as u64 * 512 + 100_000
}
