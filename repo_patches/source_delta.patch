From bbfb673015dfc6f0e46962184d621df2472afb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 01/25] fix: zip-back: split repetitions and explicit runs
 longer than a symbol can represent

A symbol stores its length on 15 bits; the encoder panicked as soon as a
repetition (e.g. any sufficiently large plain image) got longer than that.
---
 src/zip/back.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..206f217 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -1,4 +1,4 @@
-use std::{cmp::max, collections::{HashMap, VecDeque}, io};
+use std::{cmp::{max, min}, collections::{HashMap, VecDeque}, io};
 use crate::{ser::{Serialize, Deserialize}, utils::default_array};
 
 #[allow(dead_code)]
@@ -37,12 +37,16 @@ impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
 
+    /// The longest sequence that a single symbol can represent:
+    /// the most significant bit of the serialized length is used for the kind of symbol
+    const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
     fn mask(msb: u8) -> Len {
         (msb as Len).rotate_right(1)
     }
 
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= Self::MAX_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -159,14 +163,18 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             channel.push(Symbol::LookBack(lb));
         }
 
-        // Returns whether the input sequence is depleted
+        // Returns whether the explicit symbol is over:
+        // the input sequence is depleted or the symbol can't get any bigger
         fn extend_explicit<I: Iterator<Item = u8>>(encoder: &mut Encoder<I>, curr_explicit: &mut Vec<u8>) -> bool {
             // No repetition was found
             // Restore the input
             encoder.input.restore();
 
             // We always try to double the current explicit size
-            let try_to_get = max(curr_explicit.len(), 2);
+            // (without going over the maximum length of a symbol)
+            let try_to_get = min(
+                                max(curr_explicit.len(), 2),
+                                Symbol::MAX_LEN - curr_explicit.len());
             let mut new_bytes: Vec<u8> =
                 (&mut encoder.input)
                         .take(try_to_get)
@@ -182,7 +190,7 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
 
             curr_explicit.append(&mut new_bytes);
 
-            return input_depleted;
+            return input_depleted || curr_explicit.len() == Symbol::MAX_LEN;
         }
 
         loop {
@@ -225,6 +233,12 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
 
         loop {
             match self.buffered_repetition() {
+                Some(lb)
+                    if lb.len >= Symbol::MAX_LEN =>
+                {
+                    // The repetition can't be any longer
+                    return Some(LookBack { len: Symbol::MAX_LEN, ..lb });
+                }
                 Some(lb)
                     if lb.len == self.rep_buf.len() =>
                 {
-- 
2.43.0


From 1282e7ef713d160a575fcd35c5c0c5f8b0fdb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 02/25] fix: voronoi: unsigned overflow in the distance
 computations

The coordinates were subtracted as u32s, which overflows as soon as the
first one is smaller: encoding or decoding nearly any picture panicked.
---
 src/codec/clusterc.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..f144e69 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,7 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| square_diff(c.x, x) + square_diff(c.y, y))
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -203,10 +203,15 @@ struct ColorPos {
     color: Rgb<u8>,
 }
 
+// The coordinates are unsigned: the difference must not depend on their order
+fn square_diff(a: u32, b: u32) -> u64 {
+    (a.abs_diff(b) as u64).pow(2)
+}
+
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = square_diff(self.x, other.x) as f64;
+        d += square_diff(self.y, other.y) as f64;
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From d7e6c2139f10ffc2881bc0b4e169c32bcfa3fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 03/25] fix: k-means: more clusters requested than there are
 points

cluster-colors panicked on any image with fewer colors than requested, and
voronoi on any image with fewer pixels than requested.
---
 src/codec/clusterc.rs | 10 +++++-----
 src/kmeans.rs         |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index f144e69..19dbae8 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -158,11 +158,11 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
-            centroid.serialize(writer)?;
-        }
-        Ok(())
+        // Note: there may be fewer of them than requested (small images)
+        let centroids: Vec<_> = clusters.into_iter()
+                                    .map(|(centroid, _points)| centroid)
+                                    .collect();
+        (&centroids[..]).serialize(writer)
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<Img> {
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..635b781 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,6 +19,8 @@ pub struct Clusters<T> {
 /*********************/
 
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
+    // We can't make more clusters than there are points
+    let nclusters = min(points.len(), nclusters);
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-- 
2.43.0


From 08f5c1d04b85fdc4e73a8a0efaaff8dc6decf780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 04/25] fix: reject cluster-colors(0) and voronoi(0)

Encoding with these codecs panicked with a division by zero.
---
 src/codec/clusterc.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 19dbae8..4f7d9ce 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -136,6 +136,10 @@ impl FromStr for ClusterColors {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Can't reduce an image to 0 clusters".into());
+        }
+
         Ok(ClusterColors(ncolors))
     }
 }
@@ -297,6 +301,10 @@ impl FromStr for VoronoiCluster {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Can't reduce an image to 0 clusters".into());
+        }
+
         Ok(VoronoiCluster(ncolors))
     }
 }
-- 
2.43.0


From 3f67b949bee7a34eedfea4181a4e65bdf074320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:55 +0000
Subject: [PATCH 05/25] fix: hilbert(rle()): report the missing argument
 instead of panicking

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..e552e7a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -368,10 +368,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From c841eb277500d6c939872a8f0f97e6bd6602d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 06/25] fix: function call parser: non-ASCII input

Character positions were used as byte positions, which panicked (or cut the
arguments at the wrong place) when the input contains multi-byte characters.
---
 src/prs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..298e219 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -27,8 +27,8 @@ pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut paren_stack: u16 = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    // Note: we need byte positions here, they're used to slice the input
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 22aab1b5e16b89421b20bdc2091bd805ea23ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 07/25] fix: function call parser: overflow on deeply nested
 parentheses

---
 src/prs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prs.rs b/src/prs.rs
index 298e219..f034241 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,7 +24,7 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
     // Note: we need byte positions here, they're used to slice the input
-- 
2.43.0


From d07de842390c2471af290cb07f5a3d60548b8c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:00 +0000
Subject: [PATCH 08/25] fix: cluster-colors and voronoi arguments must match
 fully

Any argument that merely contained e.g. 'voronoi(1)' was accepted.
---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 4f7d9ce..bdda9e1 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -287,7 +287,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 10acae365064a335f24f0d41354883642286ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 09/25] fix: hufman and delta: return the error when the output
 can't be written

A write error in the middle of the payload was printed, then panicked.
---
 src/huf.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..7a6c9a4 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,7 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +135,15 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
-        let code = self.codes.get(symbol)?;
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> io::Result<()> {
+        let code = self.codes
+                        .get(symbol)
+                        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "symbol without a code"))?;
         if code.len() == 0 {
-            return Some(());
+            return Ok(());
         }
 
         writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
     }
 }
 
-- 
2.43.0


From b3fb9f69e4a7fe429c545c6a26e3bf599aa577d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 10/25] fix: hilbert: truncated streams decoded as incomplete
 images

Decoding a truncated stream returned an image whose missing pixels were
black, or panicked when a run was cut in the middle.
---
 src/codec/hilbertc.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e552e7a..2a693cb 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -56,11 +56,18 @@ impl Codec for Hilbert {
         fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
             let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
 
+            let mut decoded_count: u64 = 0;
             hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
                 .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
-
+                .for_each(|((x, y), color)| {
+                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+                    decoded_count += 1;
+                });
+
+            if decoded_count != (dimensions.0 as u64) * (dimensions.1 as u64) {
+                // The stream stopped before the end of the image
+                return None;
+            }
             Some(img_buffer.into())
         }
 
@@ -324,7 +331,7 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
         if self.count == 0 {
             self.count = RepCount::deserialize(&mut self.bytes)?;
             assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
         }
 
         self.count -= 1;
-- 
2.43.0


From 7a5daa646e3e11785f43c9ee0b3e99f88567bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 11/25] fix: delta: truncated streams decoded as incomplete
 images

Decoding a truncated stream returned an image whose missing pixels were
black, or panicked when the hufman dictionary was cut in the middle.
---
 src/codec/hilbertc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 2a693cb..81beea7 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -425,12 +425,12 @@ impl Codec for Delta {
 
         let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
 
-        let diff_stream = huf::decode_all(reader).unwrap();
-        let color_stream = FromDiff::new(diff_stream);
+        let diff_stream = huf::decode_all(reader)?;
+        let mut color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
+        for (x, y) in hilbert {
+            *img_buffer.get_pixel_mut(x as u32, y as u32) = color_stream.next()?;
         }
 
         Some(img_buffer.into())
-- 
2.43.0


From e8a7e82a3589a89480c0da88d90e562e3aa17386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:15 +0000
Subject: [PATCH 12/25] fix: zip-dict: panic when decoding a stream truncated
 between two paired symbols

---
 src/zip/dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..732ba04 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,7 +190,7 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
                 let seq1 = self.decode(symbol1);
                 let seq2 = self.decode(symbol2);
-- 
2.43.0


From db7023bc2f4a53c3e078249cdd2dd786be32ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 13/25] fix: zip-back: panic when decoding a stream truncated
 in an explicit sequence

---
 src/zip/back.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 206f217..4b53d8a 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -98,7 +98,10 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() < len {
+                    // The stream is truncated
+                    return None;
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
-- 
2.43.0


From 374c4eebc591ed8896de1e03e92788c27edf4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 14/25] fix: --special=hilbert: the csv header swapped the
 green and blue columns

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8f4eecf..3d47e04 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,7 @@ fn try_special() -> Result<(), Err> {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
-                        csv.write_record(&["red", "blue", "green"]).unwrap();
+                        csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
                     }
-- 
2.43.0


From 074086623edf7597bfdc5e6f7f7a340dc270753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 15/25] fix: --special=hilbert: small dump of images whose
 smallest side is a power of two

The largest square enscribed in such an image is as big as this side: half of
it was used instead (and none at all when this side is a single pixel).
---
 src/hilbert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hilbert.rs b/src/hilbert.rs
index fd15f21..768b9da 100644
--- a/src/hilbert.rs
+++ b/src/hilbert.rs
@@ -15,7 +15,9 @@ pub fn linearize_rect<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::P
 pub fn linearize_small<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::Pixel> + '_ {
     let (xdim, ydim) = img.dimensions();
 
-    let square_order = min(xdim.next_power_of_two() >> 1, ydim.next_power_of_two() >> 1) as usize;
+    // The largest power of two that fits in both dimensions
+    let min_dim = min(xdim, ydim) as usize;
+    let square_order = (min_dim + 1).next_power_of_two() >> 1;
 
     iter(square_order, square_order)
         .map(|(x, y)| img.get(x, y))
-- 
2.43.0


From 7aa79fcdba62b03ae0d09c4c61f48f637c21844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 16/25] fix: bench: overflow in the size computations of large
 images

The raw size overflowed (a panic, which also loses the results of all the other
images) from about 13400x13400.
---
 src/bench.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..75450c9 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,8 +38,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
-            println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
+            let raw_size = (h as u64) * (w as u64) * 24; // we're counting on 3 bytes RGB pixels
+            println!("bench: Raw size = {}", ByteSize::b(raw_size));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
             let decoded = codec.decode(&mut data.into_iter())
@@ -100,7 +100,7 @@ fn compute_error(x: &Img, y: &Img) -> f64 {
                             .map(|(px, py)| px.dist(&py).powi(2))
                             .sum();
     let (w, h) = x.dimensions();
-    return tot_error / ((w * h) as f64);
+    return tot_error / ((w as f64) * (h as f64));
 }
 
 fn print_err<T, E: Debug>(r: Result<T, E>) {
-- 
2.43.0


From 3b0d585d34754a28be6020d6e75ccaa87914821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 17/25] fix: usage: advertise the codecs that exist

reduce-colors isn't a codec, and most of the actual ones were missing.
---
 src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3d47e04..c421b2c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,7 +85,14 @@ fn usage() -> String {
     String::from("Usage: cniic --codec=<codec> [<img file>..]
 Available codecs:
   hufman
-  reduce-colors(<ncolors>)")
+  cluster-colors(<ncolors>)
+  voronoi(<ncells>)
+  delta
+  hilbert(rle)
+  hilbert(rle(<distance>))
+  hilbert(zip)
+  zip(dict)
+  zip(back)")
 }
 
 fn under_output<P: AsRef<Path>>(p: &P, new_extension: &str) -> PathBuf {
-- 
2.43.0


From 8a09cde83cbb36c04116f38a7f511a3baaa4310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 18/25] verif hook: entry point for the verification driver,
 under cfg(cniic_verif)

---
 src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index c421b2c..5b77780 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]  // cfg(cniic_verif): see mod verif
+
 mod bench;
 mod bit;
 mod codec;
@@ -10,11 +12,22 @@ mod ser;
 mod utils;
 mod zip;
 
+// Verification hook: the driver's source lives outside of this repository
+#[cfg(cniic_verif)]
+mod verif {
+    include!(env!("CNIIC_VERIF_DRIVER"));
+}
+
 use codec::AnyCodec;
 use image::{Pixel, Rgba};
 use std::{path::{Path, PathBuf}, str::FromStr};
 
 fn main() {
+    #[cfg(cniic_verif)]
+    if verif::run() {
+        return;
+    }
+
     try_special()
         .or_else(|_|try_bench())
         .unwrap()
-- 
2.43.0


From 3539769a3e0e46d62c8f751b3ac424c0fd66f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:43 +0000
Subject: [PATCH 19/25] fix: k-means: endless loop when rounded means make
 points move in circles

---
 src/kmeans.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 635b781..c431a2a 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -18,15 +18,30 @@ pub struct Clusters<T> {
 /* K-Means algorithm */
 /*********************/
 
+const MAX_USELESS_ITERATIONS: u32 = 20;
+
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     // We can't make more clusters than there are points
     let nclusters = min(points.len(), nclusters);
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
+    // The mean of a Point can be rounded: points may then move in circles forever
+    // Give up when this doesn't improve the clusters anymore
+    let mut best_error = f64::INFINITY;
+    let mut useless_iterations = 0;
+
     let mut i = 0;
-    while changed_assignment {
-        changed_assignment = assign_points(&mut clusters);
+    while changed_assignment && useless_iterations < MAX_USELESS_ITERATIONS {
+        let error;
+        (changed_assignment, error) = assign_points(&mut clusters);
+        if error < best_error {
+            best_error = error;
+            useless_iterations = 0;
+        }
+        else {
+            useless_iterations += 1;
+        }
         // WARNING: always compute the centroids: the caller can use them
         update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
@@ -329,13 +344,15 @@ fn update_neighbours<T: Point>(clusters: &mut Clusters<T>) {
 /********************/
 
 // Returns true if some points changed assignment, false otherwise
-fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
+// Along with the sum of the squared distances of the points to their centroid
+fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> (bool, f64) {
     // 1. Extract all the vectors of points
     let new_assignment = (0..clusters.len()).map(|_| Vec::new()).collect();
     let old_assignment = std::mem::replace(&mut clusters.assignment, new_assignment);
 
     // 2. Move the points accordingly
     let mut some_change = false;
+    let mut tot_error = 0.0;
     let mut obvious_stay_count = 0;
     let mut neighbour_cutoff_count = 0;
     let mut moved_count = 0;
@@ -390,6 +407,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
 
         let j = closest_idx.unwrap();
         clusters.assignment[j].push(x);
+        tot_error += min_dist.powi(2);
 
         if cci != j {
             some_change = true;
@@ -414,7 +432,7 @@ fn assign_points<T: Point>(clusters: &mut Clusters<T>) -> bool {
         println!("Average tested neighbours: {}", sum_tested_neighbours / tot_points);
     }
 
-    return some_change;
+    return (some_change, tot_error);
 }
 
 /***************************/
-- 
2.43.0


From d2e6f72deedd213c0e988a3db2c17b8a4390100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:41 +0000
Subject: [PATCH 20/25] fix: k-means: panic when clusters left empty pick
 points that are alone in theirs

---
 src/kmeans.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index c431a2a..6363e6e 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -43,8 +43,10 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
             useless_iterations += 1;
         }
         // WARNING: always compute the centroids: the caller can use them
-        update_centroids(&mut clusters);
+        let some_empty = update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
+        // An empty cluster can still attract the point it was given as centroid
+        changed_assignment |= some_empty;
         i += 1;
     }
     println!("#iterations: {}", i);
@@ -124,7 +126,9 @@ fn init_centroids<T: Point>(assignment: &Assignment<T>) -> Vec<T> {
         .collect()
 }
 
-fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T>) {
+// Returns true if some clusters are empty, false otherwise
+fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T>) -> bool {
+    let mut some_empty = false;
     for points_in_cluster in assignment.iter() {
         // FIXME need to cover the case when the cluster has no data
         match T::mean(&points_in_cluster) {
@@ -135,11 +139,14 @@ fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T
                 println!("########");
                 println!("Uncommon: empty cluster");
                 println!("########");
+                some_empty = true;
                 // No points were assigned to this cluster
                 // Pick a random point from another cluster
+                // Note: a point alone in its cluster would stay there. As there are at least as many
+                //       points as clusters, there is another cluster with several points.
                 let mut victim = assignment.choose(&mut rand::thread_rng())
                                             .unwrap();
-                while victim.len() == 0 {
+                while victim.len() < 2 {
                     victim = assignment.choose(&mut rand::thread_rng())
                                             .unwrap();
                 }
@@ -151,12 +158,13 @@ fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T
             }
         }
     }
+    return some_empty;
 }
 
-fn update_centroids<T: Point>(clusters: &mut Clusters<T>) {
+fn update_centroids<T: Point>(clusters: &mut Clusters<T>) -> bool {
     // Note: Vec::clear() keeps the underlying allocated buffer, which is what we want
     clusters.centroids.clear();
-    compute_centroids(&clusters.assignment, &mut clusters.centroids);
+    compute_centroids(&clusters.assignment, &mut clusters.centroids)
 }
 
 /**************/
-- 
2.43.0


From 1f9bd5539b939bffc6fb649f49e16ea0b181a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:11 +0000
Subject: [PATCH 21/25] fix: bench: an empty image aborted the whole run

---
 src/bench.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bench.rs b/src/bench.rs
index 75450c9..6ee6d74 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -29,6 +29,9 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("Processing {:?}...", p);
             let img = image::open(&p)
                         .map_err(|e| format!("{:?}", e))?;
+            if img.width() == 0 || img.height() == 0 {
+                return Err(format!("Empty image ({:?})", p));
+            }
 
             let mut data = Vec::new();
             codec.encode(&img, &mut data)
-- 
2.43.0


From 8d1bd4d8b93a82e54ec66386b672bc386c666440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:07 +0000
Subject: [PATCH 22/25] fix: a file name that isn't valid Unicode stopped the
 whole run

---
 src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5b77780..20ed651 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,7 +20,7 @@ mod verif {
 
 use codec::AnyCodec;
 use image::{Pixel, Rgba};
-use std::{path::{Path, PathBuf}, str::FromStr};
+use std::{ffi::{OsStr, OsString}, path::{Path, PathBuf}, str::FromStr};
 
 fn main() {
     #[cfg(cniic_verif)]
@@ -44,7 +44,7 @@ fn try_special() -> Result<(), Err> {
         "hilbert" => {
             file_paths
                 .for_each(|img_path| {
-                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &str, meth_name: &str) {
+                    fn write_to_csv<I: Iterator<Item = Rgba<u8>>>(iter: I, img_path: &OsStr, meth_name: &str) {
                         let file_suffix = format!("{}.hilbert.csv", meth_name);
                         let output_path = under_output(&img_path, &file_suffix);
                         let mut csv = csv::Writer::from_path(&output_path).unwrap();
@@ -84,11 +84,13 @@ fn try_bench() -> Result<(), Err> {
 
 type Err = String;
 
-fn separate_args() -> Result<(String, impl Iterator<Item=String>), Err> {
+fn separate_args() -> Result<(String, impl Iterator<Item=OsString>), Err> {
     // Note: Bash performs '*' expansion, so we always get a list here
-    let mut args = std::env::args().skip(1);
+    // File names don't have to be valid Unicode
+    let mut args = std::env::args_os().skip(1);
 
     let command = args.next()
+                    .and_then(|arg| arg.into_string().ok())
                     .ok_or_else(usage)?;
 
     Ok((command, args))
-- 
2.43.0


From f5d9b927ffeece13ac2dc617b3f4e0f37fc79f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:07 +0000
Subject: [PATCH 23/25] fix: hilbert dump: write errors at the end of the file
 were ignored

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 20ed651..aeafecf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,6 +51,8 @@ fn try_special() -> Result<(), Err> {
                         csv.write_record(&["red", "green", "blue"]).unwrap();
 
                         iter.for_each(|px| csv.serialize(px.to_rgb().0).unwrap());
+                        // Note: dropping the writer would hide the errors
+                        csv.flush().unwrap();
                     }
 
                     let img = image::open(&img_path).unwrap();
-- 
2.43.0


From a39b57ccb0b1509b0b3e572888e14a939742b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:09 +0000
Subject: [PATCH 24/25] fix: bench: a picture that could not be written
 completely was reported as saved

---
 src/bench.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index 6ee6d74..0b2c603 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -1,7 +1,7 @@
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::fmt::Debug;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use image::GenericImageView;
 use bytesize::ByteSize;
 use rayon::prelude::*;
@@ -53,7 +53,7 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             if error != 0.0 {
                 // Write the incorrect image to file
                 let path = crate::under_output(&p, "png");
-                decoded.save(&path)
+                save_png(&decoded, &path)
                         .map_err(|e| format!("{:?}", e))?;
                 eprintln!("Saved to {}", path.display());
 
@@ -93,6 +93,14 @@ fn csv_writer<T: Codec>(codec: &T) -> Result<csv::Writer<fs::File>, csv::Error>
     csv::Writer::from_path(&csv_filename)
 }
 
+// Note: DynamicImage::save() ignores the errors that happen when its buffer is flushed
+fn save_png(img: &Img, path: &Path) -> image::ImageResult<()> {
+    let mut writer = io::BufWriter::new(fs::File::create(path)?);
+    img.write_to(&mut writer, image::ImageOutputFormat::Png)?;
+    writer.flush()?;
+    Ok(())
+}
+
 // Compute MSE
 // See https://stackoverflow.com/questions/20271479/what-does-it-mean-to-get-the-mse-mean-error-squared-for-2-images
 fn compute_error(x: &Img, y: &Img) -> f64 {
-- 
2.43.0


From addaa7e61f3e27fca2b70a8ed5ffbb8833540f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:21 +0000
Subject: [PATCH 25/25] fix: k-means: panic when giving up while clusters are
 still empty

---
 src/kmeans.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index 6363e6e..8705ea0 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -31,6 +31,8 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     let mut best_error = f64::INFINITY;
     let mut useless_iterations = 0;
 
+    let mut some_empty = false;
+
     let mut i = 0;
     while changed_assignment && useless_iterations < MAX_USELESS_ITERATIONS {
         let error;
@@ -43,7 +45,7 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
             useless_iterations += 1;
         }
         // WARNING: always compute the centroids: the caller can use them
-        let some_empty = update_centroids(&mut clusters);
+        some_empty = update_centroids(&mut clusters);
         update_neighbours(&mut clusters);
         // An empty cluster can still attract the point it was given as centroid
         changed_assignment |= some_empty;
@@ -51,6 +53,11 @@ pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
     }
     println!("#iterations: {}", i);
 
+    if some_empty {
+        // We gave up before all the clusters got points
+        fill_empty_clusters(&mut clusters);
+    }
+
     // Sanity check
     check_enough_active_clusters(&clusters, nclusters);
 
@@ -161,6 +168,22 @@ fn compute_centroids<T: Point>(assignment: &Assignment<T>, centroids: &mut Vec<T
     return some_empty;
 }
 
+// Gives a point of the largest cluster to each empty one
+fn fill_empty_clusters<T: Point>(clusters: &mut Clusters<T>) {
+    for i in 0..clusters.len() {
+        if clusters.assignment[i].is_empty() {
+            // There are at least as many points as clusters: the largest cluster has several points
+            let stolen = clusters.assignment
+                                    .iter_mut()
+                                    .max_by_key(|points| points.len())
+                                    .and_then(|points| points.pop())
+                                    .unwrap();
+            clusters.assignment[i].push(stolen);
+        }
+    }
+    update_centroids(clusters);
+}
+
 fn update_centroids<T: Point>(clusters: &mut Clusters<T>) -> bool {
     // Note: Vec::clear() keeps the underlying allocated buffer, which is what we want
     clusters.centroids.clear();
-- 
2.43.0

