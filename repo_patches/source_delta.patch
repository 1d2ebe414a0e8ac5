From def91c6c5ed0ceed9dc6ec08c9d9517ae3f3c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/19] fix: zip(back) panicked on sequences longer than a
 symbol can represent

---
 src/zip/back.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..5851e7c 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -1,4 +1,4 @@
-use std::{cmp::max, collections::{HashMap, VecDeque}, io};
+use std::{cmp::{max, min}, collections::{HashMap, VecDeque}, io};
 use crate::{ser::{Serialize, Deserialize}, utils::default_array};
 
 #[allow(dead_code)]
@@ -34,6 +34,10 @@ type Len = u16;
 type Back = u16;
 
 impl Symbol {
+    /// The longest sequence that a single symbol can represent
+    /// (the most significant bit of the length is used as the enum decider)
+    const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
 
@@ -42,7 +46,7 @@ impl Symbol {
     }
 
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= Self::MAX_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -154,7 +158,9 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             }
         }
 
-        fn push_lookback<I: Iterator<Item = u8>>(encoder: &mut Encoder<I>, lb: LookBack, channel: &mut Vec<Symbol>) {
+        fn push_lookback<I: Iterator<Item = u8>>(encoder: &mut Encoder<I>, mut lb: LookBack, channel: &mut Vec<Symbol>) {
+            // Any prefix of a repetition is a valid repetition too
+            lb.len = min(lb.len, Symbol::MAX_LEN);
             encoder.commit_bytes(lb.len);
             channel.push(Symbol::LookBack(lb));
         }
@@ -166,7 +172,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             encoder.input.restore();
 
             // We always try to double the current explicit size
-            let try_to_get = max(curr_explicit.len(), 2);
+            // (as long as it still fits in a single symbol)
+            let try_to_get = min(max(curr_explicit.len(), 2), Symbol::MAX_LEN - curr_explicit.len());
             let mut new_bytes: Vec<u8> =
                 (&mut encoder.input)
                         .take(try_to_get)
@@ -186,6 +193,12 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
         }
 
         loop {
+            if curr_explicit.len() == Symbol::MAX_LEN {
+                // The current explicit can't grow anymore
+                push_explicit(curr_explicit, channel);
+                return;
+            }
+
             match self.next_repetition() {
                 Some(lb@LookBack { len: rep_len, .. })
                 if rep_len >= MIN_REP => {
-- 
2.43.0


From e22be49180e22fbc295c644a40d51493e30325ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 02/19] fix: voronoi computed negative coordinate differences
 in unsigned arithmetic

---
 src/codec/clusterc.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..6b14fef 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2))
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -205,8 +205,8 @@ struct ColorPos {
 
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = (self.x.abs_diff(other.x) as f64).powi(2);
+        d += (self.y.abs_diff(other.y) as f64).powi(2);
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From 7f1d032631cb6f0e75eada5a3112ed9d9509230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/19] fix: cluster-colors and voronoi panicked when asked for
 more clusters than points

---
 src/codec/clusterc.rs | 10 +++++-----
 src/kmeans.rs         |  4 +++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 6b14fef..17b4c94 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -158,11 +158,11 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
-            centroid.serialize(writer)?;
-        }
-        Ok(())
+        // Note: there can be fewer of them than requested (see kmeans::cluster)
+        let centroids: Vec<ColorPos> = clusters.into_iter()
+                                            .map(|(centroid, _points)| centroid)
+                                            .collect();
+        (&centroids[..]).serialize(writer)
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<Img> {
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..2d64e49 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,7 +19,9 @@ pub struct Clusters<T> {
 /*********************/
 
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
-    let mut clusters = init(points, nclusters);
+    // There can't be more clusters than points
+    let max_nclusters = min(nclusters, points.len());
+    let mut clusters = init(points, max_nclusters);
     let mut changed_assignment = true;
 
     let mut i = 0;
-- 
2.43.0


From ef0b19b31a5c1fe0748c0d52880ffacfa39a3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/19] fix: k-means could stop with empty clusters and fail
 its own sanity check

---
 src/kmeans.rs | 53 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 2d64e49..14a3bf5 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -1,6 +1,7 @@
 use std::cell::Cell;
 use std::cmp::{min, max};
 use crate::geom::Distance;
+use rand::Rng;
 use rand::seq::SliceRandom;
 
 pub trait Point: Sized + Distance {
@@ -109,38 +110,42 @@ fn init_centroids<T: Point>(assignment: &Assignment<T>) -> Vec<T> {
         .collect()
 }
 
+/// Give one point to each cluster that doesn't have any
+fn refill_empty_clusters<T>(assignment: &mut Assignment<T>) {
+    for i in 0..assignment.len() {
+        if assignment[i].len() > 0 {
+            continue;
+        }
+
+        println!("########");
+        println!("Uncommon: empty cluster");
+        println!("########");
+        // No points were assigned to this cluster
+        // Move a random point from another cluster that can spare it
+        // There is always one: we never have more clusters than points
+        let mut rng = rand::thread_rng();
+        let victims: Vec<usize> = (0..assignment.len())
+                                        .filter(|j| assignment[*j].len() > 1)
+                                        .collect();
+        let victim = *victims.choose(&mut rng).unwrap();
+        let stolen_idx = rng.gen_range(0, assignment[victim].len());
+        let stolen = assignment[victim].swap_remove(stolen_idx);
+        assignment[i].push(stolen);
+    }
+}
+
 fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T>) {
     for points_in_cluster in assignment.iter() {
-        // FIXME need to cover the case when the cluster has no data
-        match T::mean(&points_in_cluster) {
-            Some(new_centroid) => {
-                centroids.push(new_centroid);
-            }
-            None => {
-                println!("########");
-                println!("Uncommon: empty cluster");
-                println!("########");
-                // No points were assigned to this cluster
-                // Pick a random point from another cluster
-                let mut victim = assignment.choose(&mut rand::thread_rng())
-                                            .unwrap();
-                while victim.len() == 0 {
-                    victim = assignment.choose(&mut rand::thread_rng())
-                                            .unwrap();
-                }
-                // Note: we don't actually remove the picked point from the victim cluster
-                // This will happen during the next assignment phase
-                let stolen = victim.choose(&mut rand::thread_rng())
-                                    .unwrap();
-                centroids.push(fake_clone(stolen));
-            }
-        }
+        let new_centroid = T::mean(&points_in_cluster)
+                            .unwrap(); // refill_empty_clusters guarantees that there is data here
+        centroids.push(new_centroid);
     }
 }
 
 fn update_centroids<T: Point>(clusters: &mut Clusters<T>) {
     // Note: Vec::clear() keeps the underlying allocated buffer, which is what we want
     clusters.centroids.clear();
+    refill_empty_clusters(&mut clusters.assignment);
     compute_centroids(&clusters.assignment, &mut clusters.centroids);
 }
 
-- 
2.43.0


From b128d2931b90cd312aae2f0627b625ffe2d59a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 05/19] fix: hufman-based codecs panicked when the output could
 not be written

---
 src/huf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..a7dce3b 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,7 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +135,14 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
-        let code = self.codes.get(symbol)?;
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> io::Result<()> {
+        let code = self.codes.get(symbol)
+                        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "No code for this symbol"))?;
         if code.len() == 0 {
-            return Some(());
+            return Ok(());
         }
 
         writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
     }
 }
 
-- 
2.43.0


From ca66c04a53228eedb321a40851f0048fdc93da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 06/19] fix: truncated streams panicked or decoded to a partly
 blank image

---
 src/codec/hilbertc.rs | 20 ++++++++++----------
 src/zip/back.rs       |  4 +++-
 src/zip/dict.rs       |  2 +-
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..ff1696f 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -53,13 +53,13 @@ impl Codec for Hilbert {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
-        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
+        fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), mut iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
+            // Note: the stream must provide a color for every pixel
+            for (x, y) in hilbert::iter(dimensions.0 as usize, dimensions.1 as usize) {
+                *img_buffer.get_pixel_mut(x as u32, y as u32) = iter.next()?;
+            }
 
             Some(img_buffer.into())
         }
@@ -324,7 +324,7 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
         if self.count == 0 {
             self.count = RepCount::deserialize(&mut self.bytes)?;
             assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
         }
 
         self.count -= 1;
@@ -419,12 +419,12 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let diff_stream = huf::decode_all(reader)?;
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
diff --git a/src/zip/back.rs b/src/zip/back.rs
index 5851e7c..90f175f 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,9 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..732ba04 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,7 +190,7 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
                 let seq1 = self.decode(symbol1);
                 let seq2 = self.decode(symbol2);
-- 
2.43.0


From a442e6f33ed84cf0d2603d775ba961aaab4286ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 07/19] fix: corrupted streams panicked instead of being
 refused

---
 src/codec/clusterc.rs |  3 +--
 src/codec/hilbertc.rs | 24 +++++++++++++-----------
 src/codec/zipc.rs     | 13 ++++++++-----
 src/zip/back.rs       |  4 ++++
 src/zip/dict.rs       | 12 ++++++++----
 5 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 17b4c94..30c5583 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,8 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2) + (c.y.abs_diff(y) as u64).pow(2))
-                                        .unwrap();
+                                        .min_by_key(|c| (c.x.abs_diff(x) as u64).pow(2).saturating_add((c.y.abs_diff(y) as u64).pow(2)))?;
             *px = closest_centroid.color.clone();
         }
 
diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index ff1696f..10eec16 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -1,4 +1,4 @@
-use std::ops::{Sub, Add};
+use std::ops::Sub;
 use std::str::FromStr;
 use image::{GenericImageView, ImageBuffer, Pixel, Rgb};
 use crate::geom::Distance;
@@ -323,7 +323,10 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
     fn next(&mut self) -> Option<Self::Item> {
         if self.count == 0 {
             self.count = RepCount::deserialize(&mut self.bytes)?;
-            assert!(self.count > 0);
+            if self.count == 0 {
+                // Corrupted stream
+                return None;
+            }
             self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
         }
 
@@ -499,11 +502,11 @@ impl<I: Iterator<Item = SignedColor>> Iterator for FromDiff<I> {
     fn next(&mut self) -> Option<Self::Item> {
         self.diff_stream
             .next()
-            .map(|new_diff| {
-                let new_signed = self.last_color + new_diff;
+            .and_then(|new_diff| {
+                let new_signed = self.last_color.checked_add(new_diff)?;
                 self.last_color = new_signed;
                 new_signed.try_into()
-                    .unwrap()
+                    .ok()
             })
     }
 }
@@ -547,14 +550,13 @@ impl Sub for SignedColor {
     }
 }
 
-impl Add for SignedColor {
-    type Output = Self;
-
-    fn add(mut self, rhs: Self) -> Self::Output {
+impl SignedColor {
+    // A corrupted stream can provide values that don't fit
+    fn checked_add(mut self, rhs: Self) -> Option<Self> {
         for i in 0..3 {
-            self.0[i] += rhs.0[i];
+            self.0[i] = self.0[i].checked_add(rhs.0[i])?;
         }
-        self
+        Some(self)
     }
 }
 
diff --git a/src/codec/zipc.rs b/src/codec/zipc.rs
index f5039d4..a592ee3 100644
--- a/src/codec/zipc.rs
+++ b/src/codec/zipc.rs
@@ -1,6 +1,6 @@
 use std::str::FromStr;
 
-use image::{GenericImageView, Pixel};
+use image::{GenericImageView, Pixel, Rgb};
 
 use crate::{prs, ser::{Deserialize, SerStream}, zip::{zip_dict_decode, zip_dict_encode, zip_back_decode, zip_back_encode}};
 
@@ -27,12 +27,15 @@ impl Codec for Zip {
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
         fn rebuild_image<I: Iterator<Item = u8>>(mut decoded_bytes: I) -> Option<super::Img> {
             let dims: (u32, u32) = Deserialize::deserialize(&mut decoded_bytes)?;
-            let mut img = image::RgbImage::new(dims.0, dims.1);
 
-            for px in img.pixels_mut() {
-                *px = Deserialize::deserialize(&mut decoded_bytes)?;
+            // Note: don't allocate the image upfront, the dimensions can't be trusted
+            // if the stream is corrupted
+            let mut raw = Vec::new();
+            for _ in 0..(dims.0 as u64 * dims.1 as u64) {
+                let px: Rgb<u8> = Deserialize::deserialize(&mut decoded_bytes)?;
+                raw.extend_from_slice(&px.0);
             }
-            Some(img.into())
+            Some(image::RgbImage::from_raw(dims.0, dims.1, raw)?.into())
         }
 
         match self {
diff --git a/src/zip/back.rs b/src/zip/back.rs
index 90f175f..d74ca45 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -698,6 +698,10 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 self.decoded.extend(&explicit_data);
             }
             Some(Symbol::LookBack(lb)) => {
+                if lb.back > self.history.len() {
+                    // Corrupted stream: there's no data that far back
+                    return;
+                }
                 let lookback_slice = self.duplicate(&lb);
                 self.decoded.extend(lookback_slice);
             }
diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 732ba04..9ce1897 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -192,11 +192,15 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
                 let symbol1 = self.next_symbol()?;
                 let symbol2 = self.next_symbol()?;
 
-                let seq1 = self.decode(symbol1);
-                let seq2 = self.decode(symbol2);
+                let seq1 = self.decode(symbol1)?;
+                let seq2 = self.decode(symbol2)?;
 
                 let mut total_seq = seq1.clone();
                 total_seq.extend_from_slice(seq2);
+                if total_seq.is_empty() {
+                    // Corrupted stream: there's nothing left after EOF
+                    return None;
+                }
 
                 match self.next_code() {
                     Some(new_code) => {
@@ -235,10 +239,10 @@ impl<I: Iterator<Item=u8>> DictDecoder<I> {
         return decoder;
     }
 
-    fn decode(&self, symbol: Symbol) -> &Vec<u8> {
+    // Returns None if the stream is corrupted: this symbol doesn't exist
+    fn decode(&self, symbol: Symbol) -> Option<&Vec<u8>> {
         self.mapping
             .get(&symbol)
-            .unwrap()
     }
 
     fn next_symbol(&mut self) -> Option<Symbol> {
-- 
2.43.0


From 7f96a20ca370899b48ed0849b35c5e15a26c653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 08/19] fix: a benchmark whose results could not all be written
 reported success

---
 src/bench.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..a41f3ac 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -6,6 +6,7 @@ use image::GenericImageView;
 use bytesize::ByteSize;
 use rayon::prelude::*;
 use std::sync::RwLock;
+use std::sync::atomic::{AtomicBool, Ordering};
 use crate::codec::{Codec, Img};
 use std::ops::DerefMut;
 use std::marker::Sync;
@@ -20,6 +21,11 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
     let wrote_header = false;
     let csv = csv_writer(codec)?;
     let writer_state = RwLock::new((wrote_header, csv));
+    let csv_failed = AtomicBool::new(false);
+    let csv_err = |e: csv::Error| {
+        csv_failed.store(true, Ordering::SeqCst);
+        format!("{:?}", e)
+    };
 
     paths
         .map(|p| p.into())
@@ -66,19 +72,22 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
 
             if !*wrote_header {
                 csv.write_record(&["name", "compressed_size", "compression_ratio", "error"])
-                    .map_err(|e| format!("{:?}", e))?;
+                    .map_err(csv_err)?;
                 *wrote_header = true;
             }
 
             let file_name = p.to_str().unwrap_or("???");
             csv.serialize((file_name, compressed_size, compression_ratio * 100.0, error))
-                .map_err(|e| format!("{:?}", e))?;
+                .map_err(csv_err)?;
             Ok(())
         })
         .for_each(|r| print_err(r));
 
     let (_wrote_header, mut csv) = writer_state.into_inner().unwrap();
     csv.flush()?;
+    if csv_failed.into_inner() {
+        return Err(io::Error::new(io::ErrorKind::Other, "Some results could not be written"));
+    }
     Ok(())
 }
 
-- 
2.43.0


From f22375bfe8d41bcccbd2a5f3b5379870f5279f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 09/19] fix: errors while saving a decoded image could go
 unreported

---
 src/bench.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bench.rs b/src/bench.rs
index a41f3ac..51d7b35 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -56,7 +56,11 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             if error != 0.0 {
                 // Write the incorrect image to file
                 let path = crate::under_output(&p, "png");
-                decoded.save(&path)
+                // Note: Img::save() doesn't report all the write errors
+                let mut png = io::Cursor::new(Vec::new());
+                decoded.write_to(&mut png, image::ImageOutputFormat::Png)
+                        .map_err(|e| format!("{:?}", e))?;
+                fs::write(&path, png.into_inner())
                         .map_err(|e| format!("{:?}", e))?;
                 eprintln!("Saved to {}", path.display());
 
-- 
2.43.0


From c2d51db0f703f5d3f68fac2437f756d2122694ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 10/19] fix: the hilbert export could lose rows and report
 success

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 8f4eecf..5578ec3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -38,6 +38,7 @@ fn try_special() -> Result<(), Err> {
                         csv.write_record(&["red", "blue", "green"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
+                        csv.flush().unwrap();
                     }
 
                     let img = image::open(&img_path).unwrap();
-- 
2.43.0


From 7dabc3225938db9cd8ef6c1e35fc439464bca801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:32 +0000
Subject: [PATCH 11/19] fix: the hilbert export swapped the green and blue
 column names

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5578ec3..170d683 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,7 @@ fn try_special() -> Result<(), Err> {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
-                        csv.write_record(&["red", "blue", "green"]).unwrap();
+                        csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
                         csv.flush().unwrap();
-- 
2.43.0


From 8c4f84e92ce3eae82770999ca5f5d5e3daa40328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 12/19] hook: expose the entry point and the codecs to a
 simulation harness (cfg cniic_sim, off by default)

---
 src/lib.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..9a2c6d0
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,45 @@
+// Simulation hook: with `--cfg cniic_sim`, give an external harness access to the
+// program's entry point and to its codecs.
+// Without it (the default) this library is empty.
+#![allow(unexpected_cfgs)]
+#![cfg(cniic_sim)]
+#![allow(dead_code)]
+
+include!("main.rs");
+
+pub mod sim {
+    use std::io;
+    use std::str::FromStr;
+    use crate::codec::{self, Codec as _};
+
+    pub struct Codec(codec::AnyCodec);
+
+    /// The program's entry point
+    pub fn run_main() {
+        crate::main()
+    }
+
+    pub fn codec(spec: &str) -> Option<Codec> {
+        codec::AnyCodec::from_str(spec)
+            .ok()
+            .map(Codec)
+    }
+
+    impl Codec {
+        pub fn encode(&self, img: &codec::Img, mut writer: &mut dyn io::Write) -> io::Result<()> {
+            self.0.encode(img, &mut writer)
+        }
+
+        pub fn decode(&self, mut reader: &mut dyn Iterator<Item = u8>) -> Option<codec::Img> {
+            self.0.decode(&mut reader)
+        }
+
+        pub fn name(&self) -> String {
+            self.0.name()
+        }
+
+        pub fn is_lossless(&self) -> bool {
+            self.0.is_lossless()
+        }
+    }
+}
-- 
2.43.0


From 9d0ef4d5905faddb5fce906c3932e5f566e4093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 13/19] fix: a corrupted colour length made the decoder expand
 a stream without bound

---
 src/ser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index a58f1b7..bad13c0 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -215,8 +215,13 @@ impl<T: Serialize> Serialize for image::Rgb<T> {
 
 impl<T:Deserialize> Deserialize for image::Rgb<T> {
     fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
-        let vec: Vec<T> = Deserialize::deserialize(stream)?;
-        let arr: [T; 3] = vec.try_into().ok()?;
+        // Check the length first: in a corrupted stream it can be anything, and collecting
+        // that many values can exhaust the memory when the stream is a decompressor
+        let len: usize = Deserialize::deserialize(stream)?;
+        if len != 3 {
+            return None;
+        }
+        let arr: [T; 3] = Deserialize::deserialize(stream)?;
         Some(arr.into())
     }
 }
-- 
2.43.0


From 35bf4958c69d033ebf11a1bc8431c6b06525bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:40 +0000
Subject: [PATCH 14/19] fix: a corrupted decoder could overflow the stack

A run of branch markers, for instance when a leaf got lost in front of a
payload that looks like one, recursed once per byte of the stream.
---
 src/huf.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index a7dce3b..cff62dc 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -326,8 +326,21 @@ impl<T: Deserialize> Deserialize for Dec<T> {
     }
 }
 
+/// No encoder can produce a deeper trie: the total frequency grows like the Fibonacci
+/// numbers with the depth, and the number of pixels of an image fits in 64 bits
+const MAX_TRIE_DEPTH: usize = 96;
+
 impl<T: Deserialize> Deserialize for BinTrie<T> {
     fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
+        Self::deserialize_at_depth(stream, 0)
+    }
+}
+
+impl<T: Deserialize> BinTrie<T> {
+    fn deserialize_at_depth<I: Iterator<Item = u8>>(stream: &mut I, depth: usize) -> Option<Self> {
+        if depth > MAX_TRIE_DEPTH {
+            return None; // Corrupted stream
+        }
         let decider: u8 = Deserialize::deserialize(stream)?;
         match decider {
             SER_ENUM_LEAF => {
@@ -335,8 +348,8 @@ impl<T: Deserialize> Deserialize for BinTrie<T> {
                 Some(BinTrie::Leaf(value))
             }
             SER_ENUM_BRANCH => {
-                let left = Deserialize::deserialize(stream)?;
-                let right = Deserialize::deserialize(stream)?;
+                let left = Self::deserialize_at_depth(stream, depth + 1)?;
+                let right = Self::deserialize_at_depth(stream, depth + 1)?;
                 Some(BinTrie::Branch(Box::new(left), Box::new(right)))
             }
             _ => {
-- 
2.43.0


From 8ba888fa726012482e2213fe360db570d45a5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 15/19] fix: wrong compression ratio for images above 178
 million pixels

The raw size was computed in 32 bits.
---
 src/bench.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index 51d7b35..7208539 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -44,8 +44,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
-            println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
+            let raw_size = h as u64 * w as u64 * 24; // we're counting on 3 bytes RGB pixels
+            println!("bench: Raw size = {}", ByteSize::b(raw_size));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
             let decoded = codec.decode(&mut data.into_iter())
@@ -113,7 +113,7 @@ fn compute_error(x: &Img, y: &Img) -> f64 {
                             .map(|(px, py)| px.dist(&py).powi(2))
                             .sum();
     let (w, h) = x.dimensions();
-    return tot_error / ((w * h) as f64);
+    return tot_error / (w as f64 * h as f64);
 }
 
 fn print_err<T, E: Debug>(r: Result<T, E>) {
-- 
2.43.0


From 254e10de0ac5f6487eb6475d8fd92c645d5ef873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 16/19] fix: voronoi and cluster-colors could loop forever

The rounding of the centroids makes k-means alternate between a few assignments
on some images (for example voronoi(18) on some noisy 6x7 images).
---
 src/kmeans.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 14a3bf5..4a26402 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,15 +19,31 @@ pub struct Clusters<T> {
 /* K-Means algorithm */
 /*********************/
 
+/// Give up after that many iterations in a row without any improvement
+const MAX_STALLED_ITERATIONS: usize = 20;
+
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     // There can't be more clusters than points
     let max_nclusters = min(nclusters, points.len());
     let mut clusters = init(points, max_nclusters);
     let mut changed_assignment = true;
 
+    // The mean of some points is rounded, so the algorithm isn't guaranteed to converge:
+    // it can alternate between a few assignments of the same quality forever
+    let mut best_cost = f64::INFINITY;
+    let mut stalled = 0;
+
     let mut i = 0;
-    while changed_assignment {
-        changed_assignment = assign_points(&mut clusters);
+    while changed_assignment && stalled < MAX_STALLED_ITERATIONS {
+        let cost;
+        (changed_assignment, cost) = assign_points(&mut clusters);
+        if cost < best_cost * (1.0 - 1e-9) {
+            best_cost = cost;
+            stalled = 0;
+        }
+        else {
+            stalled += 1;
+        }
         // WARNING: always compute the centroids: the caller can use them
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
@@ -333,14 +349,16 @@ fn update_neighbours<T: Point>(clusters: &mut Clusters<T>) {
 /* point assignment */
 /********************/
 
-// Returns true if some points changed assignment, false otherwise
-fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
+// Returns true if some points changed assignment, false otherwise,
+// and the sum of the squared distances between the points and their centroids
+fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> (bool, f64) {
     // 1. Extract all the vectors of points
     let new_assignment = (0..clusters.len()).map(|_| Vec::new()).collect();
     let old_assignment = std::mem::replace(&mut clusters.assignment, new_assignment);
 
     // 2. Move the points accordingly
     let mut some_change = false;
+    let mut cost = 0.0;
     let mut obvious_stay_count = 0;
     let mut neighbour_cutoff_count = 0;
     let mut moved_count = 0;
@@ -393,6 +411,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
             sum_tested_neighbours += tested_neighbours;
         }
 
+        cost += min_dist.powi(2);
         let j = closest_idx.unwrap();
         clusters.assignment[j].push(x);
 
@@ -419,7 +438,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
         println!("Average tested neighbours: {}", sum_tested_neighbours / tot_points);
     }
 
-    return some_change;
+    return (some_change, cost);
 }
 
 /***************************/
-- 
2.43.0


From b71b6eacac31aa1dc5085f0ab3420a2b042405a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:40 +0000
Subject: [PATCH 17/19] fix: report an image without pixels instead of ending
 the whole benchmark

---
 src/bench.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bench.rs b/src/bench.rs
index 7208539..53f0305 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -35,6 +35,9 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("Processing {:?}...", p);
             let img = image::open(&p)
                         .map_err(|e| format!("{:?}", e))?;
+            if img.width() == 0 || img.height() == 0 {
+                return Err(format!("The image has no pixels ({:?})", p));
+            }
 
             let mut data = Vec::new();
             codec.encode(&img, &mut data)
-- 
2.43.0


From 9841c0bfdbf7b02a49648e7546ebeffdb52750c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 18/19] fix: accept image files whose names are not valid
 unicode

---
 src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 170d683..46221c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ mod zip;
 
 use codec::AnyCodec;
 use image::{Pixel, Rgba};
-use std::{path::{Path, PathBuf}, str::FromStr};
+use std::{ffi::{OsStr, OsString}, path::{Path, PathBuf}, str::FromStr};
 
 fn main() {
     try_special()
@@ -31,7 +31,7 @@ fn try_special() -> Result<(), Err> {
         "hilbert" => {
             file_paths
                 .for_each(|img_path| {
-                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &str, meth_name: &str) {
+                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &OsStr, meth_name: &str) {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
@@ -72,11 +72,13 @@ fn try_bench() -> Result<(), Err> {
 
 type Err = String;
 
-fn separate_args() -> Result<(String, impl Iterator<Item=String>), Err> {
+fn separate_args() -> Result<(String, impl Iterator<Item=OsString>), Err> {
     // Note: Bash performs '*' expansion, so we always get a list here
-    let mut args = std::env::args().skip(1);
+    // The names of files may be anything, not only unicode
+    let mut args = std::env::args_os().skip(1);
 
     let command = args.next()
+                    .and_then(|arg| arg.into_string().ok())
                     .ok_or_else(usage)?;
 
     Ok((command, args))
-- 
2.43.0


From f20558be88f10686c16b83af3d58a9718073c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:58 +0000
Subject: [PATCH 19/19] fix: don't accept codec arguments with anything before
 or behind cluster-colors and voronoi

---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 30c5583..0c056df 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -277,7 +277,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0

