From df49c667ed43ddcac7ed832c351110be9705f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 1/6] fix: fit the 7-step alpha codebook with its own endpoints

compress_bc3 built the 7-step codebook with the endpoints of the 5-step one,
so values equal to the block's own minimum or maximum (0 and 255 included)
could be matched to an index that decodes to something else.
---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From 01d78d8fc4ce6af410593fa85563fc4d8feed436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 2/6] fix: accept output buffers larger than the compressed
 image

compress documents that the buffer must have at least compressed_size bytes,
but treated everything behind the image as further block rows: it overwrote
those bytes, and panicked when they were not a whole number of blocks.
---
 lib/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..e244f24 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -302,7 +302,10 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(blocks_wide * block_size);
 
-        output_rows.enumerate().for_each(|(y, output_row)| {
+        // the buffer may be larger than the image, only fill the rows that exist
+        let output_rows = output_rows.enumerate().take(num_blocks(height));
+
+        output_rows.for_each(|(y, output_row)| {
             let mut source_rgba = [[0u8; 4]; 16];
             let output_blocks = output_row.chunks_mut(block_size);
 
-- 
2.43.0


From 97a72cfa20c9a765180c18c8b3d04d84bcf96e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 3/6] fix: accept output buffers larger than the decompressed
 image

decompress treated everything behind the last row of pixels as further rows
and read past the end of the compressed data for them.
---
 lib/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index e244f24..ece28e2 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -130,8 +130,11 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(width * 4 * 4);
 
+        // the buffer may be larger than the image, only fill the rows that exist
+        let output_rows = output_rows.enumerate().take(num_blocks(height));
+
         // loop over blocks
-        output_rows.enumerate().for_each(|(y, output_row)| {
+        output_rows.for_each(|(y, output_row)| {
             for x in 0..blocks_wide {
                 // decompress the block
                 let bidx = (x + y * blocks_wide) * block_size;
-- 
2.43.0


From 05010dfd44a0081464cbd0b24c799bd311d8e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 4/6] Add include points for verification harnesses (cfg
 texpresso_verif)

---
 lib/src/alpha.rs             | 6 ++++++
 lib/src/colourblock.rs       | 6 ++++++
 lib/src/colourfit/cluster.rs | 6 ++++++
 lib/src/colourfit/range.rs   | 6 ++++++
 lib/src/colourfit/single.rs  | 6 ++++++
 lib/src/colourset.rs         | 6 ++++++
 lib/src/lib.rs               | 8 ++++++++
 lib/src/math.rs              | 6 ++++++
 8 files changed, 50 insertions(+)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index c53e3d6..fe5ca79 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -302,3 +302,9 @@ pub fn decompress_bc3(rgba: &mut [[u8; 4]; 16], channel: usize, bytes: &[u8]) {
         pixel[channel] = codes[index as usize];
     }
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/alpha.rs"));
+}
diff --git a/lib/src/colourblock.rs b/lib/src/colourblock.rs
index ab0d5d9..b320169 100644
--- a/lib/src/colourblock.rs
+++ b/lib/src/colourblock.rs
@@ -167,3 +167,9 @@ pub fn decompress(bytes: &[u8], is_bc1: bool) -> [[u8; 4]; 16] {
 
     rgba
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/colourblock.rs"));
+}
diff --git a/lib/src/colourfit/cluster.rs b/lib/src/colourfit/cluster.rs
index 44ba3ed..627c86f 100644
--- a/lib/src/colourfit/cluster.rs
+++ b/lib/src/colourfit/cluster.rs
@@ -416,3 +416,9 @@ impl<'a> ColourFitImpl<'a> for ClusterFit<'a> {
         }
     }
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/cluster.rs"));
+}
diff --git a/lib/src/colourfit/range.rs b/lib/src/colourfit/range.rs
index a4b17a2..7241d49 100644
--- a/lib/src/colourfit/range.rs
+++ b/lib/src/colourfit/range.rs
@@ -191,3 +191,9 @@ impl<'a> ColourFitImpl<'a> for RangeFit<'a> {
         }
     }
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/range.rs"));
+}
diff --git a/lib/src/colourfit/single.rs b/lib/src/colourfit/single.rs
index c7da34f..ca57efc 100644
--- a/lib/src/colourfit/single.rs
+++ b/lib/src/colourfit/single.rs
@@ -163,3 +163,9 @@ impl<'a> ColourFitImpl<'a> for SingleColourFit<'a> {
         }
     }
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/single.rs"));
+}
diff --git a/lib/src/colourset.rs b/lib/src/colourset.rs
index 99f0685..af020bf 100644
--- a/lib/src/colourset.rs
+++ b/lib/src/colourset.rs
@@ -140,3 +140,9 @@ impl ColourSet {
         }
     }
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/colourset.rs"));
+}
diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ece28e2..85484b8 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -23,6 +23,8 @@
 //! A pure Rust texture compression suite
 
 #![no_std]
+// `texpresso_verif` is only ever set by hand
+#![allow(unexpected_cfgs)]
 
 mod alpha;
 mod colourblock;
@@ -341,6 +343,12 @@ impl Format {
     }
 }
 
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/root.rs"));
+}
+
 //--------------------------------------------------------------------------------
 // Unit tests
 //--------------------------------------------------------------------------------
diff --git a/lib/src/math.rs b/lib/src/math.rs
index 1012f8f..ebbdcd0 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -100,3 +100,9 @@ impl Sym3x3 {
 pub fn f32_to_i32_clamped(a: f32, limit: i32) -> i32 {
     libm::roundf(a).max(0.0).min(limit as f32) as i32
 }
+
+// Verification contracts and harnesses, see TEXPRESSO_VERIF_DIR. Not part of normal builds.
+#[cfg(texpresso_verif)]
+pub(crate) mod verif {
+    include!(concat!(env!("TEXPRESSO_VERIF_DIR"), "/math.rs"));
+}
-- 
2.43.0


From effc6596df2c8ecf2b1d37abec553ed04af3eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 5/6] fix: find the principal axis when the covariance rows sum
 to zero

Blocks of e.g. red and green pixels in equal number were collapsed to one
colour: the power iteration starts from (1, 1, 1), gets a zero vector and
divides by it.
---
 lib/src/math.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index ebbdcd0..9c28f24 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -80,6 +80,20 @@ impl Sym3x3 {
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
         let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
 
+        // If the rows are orthogonal to this start, e.g. for red and green pixels in
+        // equal number, the iteration cannot leave zero. Start along the row of the
+        // channel with the largest variance then.
+        let w = row2 + (row1 + row0);
+        if w.x().max(w.y().max(w.z())) == 0.0 {
+            v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
+                row0
+            } else if self.x[3] >= self.x[5] {
+                row1
+            } else {
+                row2
+            };
+        }
+
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
             let w = row0 * v.splat_x();
-- 
2.43.0


From 46d445a86721791ad777335b637ffcfaf4b335d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 6/6] fix: start the principal axis iteration along the
 largest-variance row

With rows that sum to nearly zero, (1, 1, 1) leaves only rounding errors to iterate on, and range fit then stores one colour for blocks of two (e.g. four pixels 390000 and three 080031). The previous fix only handled sums that are exactly zero.
---
 lib/src/math.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 9c28f24..ba89dc3 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -78,21 +78,17 @@ impl Sym3x3 {
         let row0 = Vec4::new(self.x[0], self.x[1], self.x[2], 0.0);
         let row1 = Vec4::new(self.x[1], self.x[3], self.x[4], 0.0);
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
-        let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
-
-        // If the rows are orthogonal to this start, e.g. for red and green pixels in
-        // equal number, the iteration cannot leave zero. Start along the row of the
-        // channel with the largest variance then.
-        let w = row2 + (row1 + row0);
-        if w.x().max(w.y().max(w.z())) == 0.0 {
-            v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
-                row0
-            } else if self.x[3] >= self.x[5] {
-                row1
-            } else {
-                row2
-            };
-        }
+
+        // Start along the row of the channel with the largest variance. A fixed start can be
+        // orthogonal to the principal axis, e.g. (1, 1, 1) for red and blue pixels, and then
+        // there is nothing but rounding errors to iterate on.
+        let mut v = if self.x[0] >= self.x[3] && self.x[0] >= self.x[5] {
+            row0
+        } else if self.x[3] >= self.x[5] {
+            row1
+        } else {
+            row2
+        };
 
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
-- 
2.43.0

