From d3e1a654347efed7b37b2561a608ec409baf979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 01/18] fix: end step iteration after the first error

A step iterator that failed before its first frame kept returning errors
forever.  Building the looping iterator drains the non-looping one, so
`Decoder::into_iter` never returned on an empty or truncated file.
---
 gift/src/decode.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..11df8ea 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -568,6 +568,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done (after an error)
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -630,15 +632,23 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let res = match self.raster {
             Some(_) => self.next_step(),
             None => None,
+        };
+        if let Some(Err(_)) = res {
+            self.done = true;
         }
+        res
     }
 }
 
@@ -650,6 +660,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From ac2a5223348f1380ab1c699e7d574de195559b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 02/18] fix: end frame iteration after a block sequence error

Iterators return None after the first error, but a sequence error found
by the frame iterator left it running.
---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 11df8ea..402d983 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -447,7 +447,10 @@ impl<R: Read> Iterator for Frames<R> {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.blocks.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
                 Err(e) => return Some(Err(e)),
-- 
2.43.0


From 83344916f8901a82cbaf44a1fc934b11633c9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 03/18] fix: end looping step iteration after the error

After reporting a decoding error, the looping iterator went on to play
the steps from before the error, forever if the loop count was zero.
---
 gift/src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 402d983..5b6a51d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -773,6 +773,9 @@ impl Iterator for StepsLooping {
 
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(err) = self.err.take() {
+            // no more steps after an error
+            self.steps.clear();
+            self.loop_count = None;
             return Some(Err(err));
         }
         if let Some(step) = self.steps.get(self.step_n) {
-- 
2.43.0


From 2acfdbe241e1ebc8c3817d2821278e0f6c085a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 04/18] fix: reject LZW code with no prefix which is not a
 literal

The first code after a clear code must be a literal.  Accepting the next
free code there made a table entry its own parent, causing an out of
bounds panic or an endless loop.
---
 gift/src/lzw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..61f0886 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -386,7 +386,8 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 6d53e41ae3261d8001c3ab096bc124b7ca25bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 05/18] fix: stop growing the decompressor table when it is
 full

An encoder may defer the clear code after all 4096 codes are used.  The
table kept growing until its length no longer fit in a code, causing an
overflow panic or a false InvalidLzwData error.
---
 gift/src/lzw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 61f0886..344e020 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -383,7 +383,9 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             None if code < self.clear_code() => buffer.push(code as u8),
-- 
2.43.0


From be6a30a17efd34da5bd9601529601ac0961d6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 06/18] fix: ignore image data after the LZW end code

Padding bits after the end code were decoded as pixels, hiding missing
image data.  Other bytes there caused a false InvalidLzwData error.
---
 gift/src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 344e020..94338b1 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Has the end code been found?
+    ended: bool,
 }
 
 impl CNode {
@@ -264,6 +266,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -337,7 +340,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.ended
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -356,8 +361,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
-            self.prefix = None;
+            self.ended = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From 46f235169c720a335eb95d95f9e5feb1d5a08e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 07/18] fix: write the final partial byte of compressed image
 data

When fewer than 8 bits remained after packing the end code, they were
dropped.  For small images this included bits of the last pixel, and the
file could not be decoded.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 94338b1..7814742 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -225,6 +225,10 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // keep the last byte if it has any bits from before the end code
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From cd400f2e8ee61a96cabeb4a1daa82c17b7ab9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 08/18] fix: encode images which use color index 255

Adding one to the highest color index overflowed.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..2d28928 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max_value = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max_value) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 5b9ee7a5e9b7c46bdc88b6d443e5168da2118837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 09/18] fix: reject an empty frame at the origin instead of
 panicking

An empty region equals the (empty) intersection with the raster, so a 0x0
frame at 0,0 was accepted and caused a panic.  Other empty frames already
return InvalidFrameDimensions.
---
 gift/src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 5b6a51d..85ef6c6 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -727,7 +727,7 @@ fn update_raster(
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
     let reg = frame.region();
-    if raster.intersection(reg) == reg {
+    if frame.width() > 0 && raster.intersection(reg) == reg {
         let clrs = if let Some(tbl) = &frame.local_color_table {
             tbl.colors()
         } else if let Some(tbl) = global_tbl {
-- 
2.43.0


From aef098bf3e38f17350c482dd3a54f75f06ea248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 10/18] fix: keep pixels under transparent pixels of a frame

A transparent pixel must leave the pixel below it unmodified, but it was
cleared, punching holes in frames which only draw the changes.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 85ef6c6..d77421a 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -758,11 +758,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // transparent pixels leave the raster unchanged
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 7174c97c139b1428a9769c23dfb17cfdaa540ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 11/18] fix: put rows of interlaced frames in order in steps

Rows of an interlaced frame are stored in four passes, but they were
drawn in storage order, scrambling the raster.
---
 gift/src/decode.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index d77421a..f9fb94d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -750,8 +750,15 @@ fn update_frame(
 ) -> Result<()> {
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
+    let height = usize::from(frame.height());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    for (y, row) in raster.rows_mut(reg).enumerate() {
+        let n_row = if frame.image_desc.interlaced() {
+            interlaced_row(y, height)
+        } else {
+            y
+        };
+        let frow = data.iter().skip(n_row * width).take(width);
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -767,6 +774,20 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the data row number for a row of an interlaced frame
+fn interlaced_row(y: usize, height: usize) -> usize {
+    // number of rows in the first three passes
+    let p0 = height.div_ceil(8);
+    let p1 = (height + 3) / 8;
+    let p2 = (height + 1) / 4;
+    match y % 8 {
+        0 => y / 8,
+        4 => p0 + y / 8,
+        2 | 6 => p0 + p1 + y / 4,
+        _ => p0 + p1 + p2 + y / 2,
+    }
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From bead08ab93550415e873f8ab7791dec4a7412172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 12/18] fix: use little-endian byte order for the loop count

Like all other GIF integers, the NETSCAPE2.0 loop count is stored with
the low byte first.  The bytes were swapped when reading and writing.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From 936ed652011bdf77f7a69869f15c10c53d6ae464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 13/18] fix: keep the delay time of decoded steps

`Step::delay_time_cs` was always None or zero for decoded steps.
---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index f9fb94d..ae6ca00 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -701,6 +701,8 @@ impl<R: Read> StepsOnce<R> {
             .graphic_control_ext
             .unwrap_or_default()
             .transparent_color();
+        let delay_time_cs =
+            frame.graphic_control_ext.map(|gc| gc.delay_time_cs());
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
@@ -716,7 +718,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(transparent_color)
+            .with_delay_time_cs(delay_time_cs))
     }
 }
 
-- 
2.43.0


From 7a3b4f1a6a1b68588f19e04541e283287f9867d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 14/18] fix: write the global color table given to the step
 encoder

`StepEnc::with_global_color_table` had no effect; the palette of the
first step was always written as the global color table.
---
 gift/src/encode.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 2d28928..982121f 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -370,11 +370,15 @@ impl<W: Write> StepEnc<W> {
         let image_desc = make_image_desc(raster)?;
         let image_data = raster.into();
         let (tbl_cfg, pal) = make_color_table(palette);
+        let (global_cfg, global_color_table) = match &self.global_color_table {
+            (cfg, Some(tbl)) => (*cfg, tbl.clone()),
+            (_, None) => (tbl_cfg, GlobalColorTable::with_colors(&pal[..])),
+        };
         let logical_screen_desc = LogicalScreenDesc::default()
             .with_screen_width(image_desc.width())
             .with_screen_height(image_desc.height())
-            .with_color_table_config(tbl_cfg);
-        let global_color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+            .with_color_table_config(global_cfg);
+        let global_color_table = Some(global_color_table);
         let loop_count_ext = self.loop_count.clone();
         let preamble = Preamble {
             logical_screen_desc,
@@ -382,7 +386,7 @@ impl<W: Write> StepEnc<W> {
             loop_count_ext,
             ..Preamble::default()
         };
-        match &self.preamble {
+        let pre = match &self.preamble {
             Some(pre) => {
                 if !pre
                     .logical_screen_desc
@@ -390,20 +394,22 @@ impl<W: Write> StepEnc<W> {
                 {
                     return Err(Error::InvalidRasterDimensions);
                 }
-                if pre.global_color_table != preamble.global_color_table {
-                    let frame = Frame::new(
-                        control,
-                        image_desc.with_color_table_config(tbl_cfg),
-                        Some(LocalColorTable::with_colors(&pal[..])),
-                        image_data,
-                    );
-                    return self.frame_enc.encode_frame(&frame);
-                }
+                pre
             }
             None => {
                 self.frame_enc.encode_preamble(&preamble)?;
-                self.preamble = Some(preamble);
+                self.preamble.insert(preamble)
             }
+        };
+        if pre.global_color_table.as_ref().map(|t| t.colors()) != Some(&pal[..])
+        {
+            let frame = Frame::new(
+                control,
+                image_desc.with_color_table_config(tbl_cfg),
+                Some(LocalColorTable::with_colors(&pal[..])),
+                image_data,
+            );
+            return self.frame_enc.encode_frame(&frame);
         }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
-- 
2.43.0


From 183765b7b5eef083c33fad0cb93d565875b03e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 15/18] fix: discard extra image data as each sub-block is
 decoded

Data decompressed past the end of an image was kept until the whole block
was read, so a small file could use memory far over max_image_sz.
---
 gift/src/decode.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index ae6ca00..0a05e5f 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,11 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => b.parse_sub_block(
+                bytes,
+                &mut self.decompressor,
+                self.image_sz,
+            )?,
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
@@ -327,9 +331,14 @@ impl ImageData {
         &mut self,
         bytes: &[u8],
         decompressor: &mut Option<Decompressor>,
+        image_sz: usize,
     ) -> Result<()> {
         if let Some(dec) = decompressor {
             dec.decompress(bytes, self.data_mut())?;
+            if self.data().len() > image_sz {
+                warn!("Extra image data: {:?}", &self.data()[image_sz..]);
+                self.data_mut().truncate(image_sz);
+            }
             return Ok(());
         }
         panic!("Invalid state in decode_image_data!");
@@ -337,12 +346,8 @@ impl ImageData {
 
     /// Finish LZW decompression
     fn finish(&mut self, image_sz: usize) -> Result<()> {
-        if self.data().len() > image_sz {
-            warn!("Extra image data: {:?}", &self.data()[image_sz..]);
-            self.data_mut().truncate(image_sz);
-            self.data_mut().shrink_to_fit();
-        }
         if self.data().len() == image_sz {
+            self.data_mut().shrink_to_fit();
             Ok(())
         } else {
             Err(Error::IncompleteImageData)
-- 
2.43.0


From 4b084e85e20af2b2e5e5ae7419bf9a844a409b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 16/18] fix: apply max_image_sz to the screen size when
 decoding steps

Each step has a raster of the whole screen, but only the size of frames
was checked.  A tiny file with a 65535x65535 screen caused a panic or a
huge allocation.
---
 gift/src/decode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 0a05e5f..7e0148e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -680,6 +680,12 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                // a raster can have no more than i32::MAX pixels
+                let max_sz = self.frames.blocks.max_image_sz;
+                let max_sz = max_sz.unwrap_or(usize::MAX).min(i32::MAX as usize);
+                if w as usize * h as usize > max_sz {
+                    return Err(Error::TooLargeImage);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
-- 
2.43.0


From 0e16c5ab07e29a5070653632ea40896dc975e82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:57 +0000
Subject: [PATCH 17/18] fix: do not apply the graphic control of plain text to
 a frame

A graphic control block applies to the first graphic rendering block
after it.  When that is plain text, it was wrongly used for the next
frame, or rejected as an invalid sequence if that frame had its own.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 7e0148e..8aea1b8 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -544,6 +544,10 @@ impl<R: Read> Frames<R> {
             Block::LocalColorTable(b) => {
                 self.local_color_table = Some(b);
             }
+            Block::PlainText(_) => {
+                // a graphic control only applies to the next graphic block
+                self.graphic_control_ext = None;
+            }
             Block::ImageData(image_data) => {
                 let graphic_control_ext = self.graphic_control_ext.take();
                 let image_desc = self.image_desc.take();
-- 
2.43.0


From 1a8f27a74dac0080ebc7564debd09dcabda0a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:54 +0000
Subject: [PATCH 18/18] fix: reject frames for a screen with no width

A zero-width raster cannot be copied, so a frame with the previous
disposal method caused a panic while decoding steps.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 8aea1b8..2cb6fed 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -712,6 +712,10 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
+        // a raster with no width cannot be copied
+        if self.raster.as_ref().unwrap().width() == 0 {
+            return Err(Error::InvalidFrameDimensions);
+        }
         let transparent_color = frame
             .graphic_control_ext
             .unwrap_or_default()
-- 
2.43.0

