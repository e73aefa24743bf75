From 0994696c7c08a0010aa41038198e85624bccff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 1/8] fix: drop samples buffered by the FFT stage when a
 fingerprinter is restarted

---
 chromaprint/src/fft.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/fft.rs b/chromaprint/src/fft.rs
index 6d2a726..3905eca 100644
--- a/chromaprint/src/fft.rs
+++ b/chromaprint/src/fft.rs
@@ -49,6 +49,7 @@ impl<C: FeatureVectorConsumer> Stage for Fft<C> {
 
 impl<C: FeatureVectorConsumer> AudioConsumer<f64> for Fft<C> {
     fn reset(&mut self) {
+        self.ring_buf.clear();
         self.consumer.reset();
     }
 
-- 
2.43.0


From c6b984dac7db0d3d53cc3025e60b79a35259d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 2/8] fix: propagate reset from the chroma filter to the stages
 after it

---
 chromaprint/src/chroma_filter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chromaprint/src/chroma_filter.rs b/chromaprint/src/chroma_filter.rs
index 0346887..28af660 100644
--- a/chromaprint/src/chroma_filter.rs
+++ b/chromaprint/src/chroma_filter.rs
@@ -54,6 +54,7 @@ impl<C: FeatureVectorConsumer> FeatureVectorConsumer for ChromaFilter<C> {
     fn reset(&mut self) {
         self.buffer_size = 1;
         self.buffer_offset = 0;
+        self.consumer.reset();
     }
 }
 
-- 
2.43.0


From b8b2cd5d5c337ca4ce37c3831da2ed0f10a5285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 3/8] fix: forget the previous resampler when a fingerprinter
 is restarted

---
 chromaprint/src/audio_processor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 691472a..0905df2 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -131,6 +131,8 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
 
         self.channels = channels;
         self.buffer_offset = 0;
+        self.input.clear();
+        self.resampler = None;
         self.consumer.reset();
 
         if self.target_sample_rate != sample_rate {
-- 
2.43.0


From 7fd07f474a315f76e9bc08d8df42bbc3088df3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 4/8] fix: avoid overflow when downmixing a very large number
 of channels

---
 chromaprint/src/audio_processor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chromaprint/src/audio_processor.rs b/chromaprint/src/audio_processor.rs
index 0905df2..d0371d0 100644
--- a/chromaprint/src/audio_processor.rs
+++ b/chromaprint/src/audio_processor.rs
@@ -53,9 +53,9 @@ impl<C: AudioConsumer<f64>> AudioProcessor<C> {
             }
             _ => {
                 for sample in input.chunks_exact(channels) {
-                    let sum: i32 = sample.iter().copied().map(i32::from).sum();
-                    let samples: i32 = sample.len().try_into().unwrap();
-                    let average: i32 = sum / samples;
+                    let sum: i64 = sample.iter().copied().map(i64::from).sum();
+                    let samples: i64 = sample.len().try_into().unwrap();
+                    let average: i64 = sum / samples;
                     self.push_sample(average.try_into().unwrap());
                 }
             }
-- 
2.43.0


From 1daf868fd21bd89a1c7906580a097716821b8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 5/8] fix: honour the interpolation setting of the
 configuration

---
 chromaprint/src/chroma.rs        | 5 +++++
 chromaprint/src/fingerprinter.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/chromaprint/src/chroma.rs b/chromaprint/src/chroma.rs
index 2a78d09..5dcba10 100644
--- a/chromaprint/src/chroma.rs
+++ b/chromaprint/src/chroma.rs
@@ -33,6 +33,11 @@ impl<C: FeatureVectorConsumer> Chroma<C> {
         chroma
     }
 
+    pub(crate) fn with_interpolation(mut self, interpolate: bool) -> Self {
+        self.interpolate = interpolate;
+        self
+    }
+
     fn prepare_notes(&mut self, min_freq: u32, max_freq: u32, frame_size: usize, sample_rate: u32) {
         self.min_index = freq_to_index(min_freq, frame_size, sample_rate).max(1);
         self.max_index = freq_to_index(max_freq, frame_size, sample_rate).min(frame_size / 2);
diff --git a/chromaprint/src/fingerprinter.rs b/chromaprint/src/fingerprinter.rs
index 456b171..7fdb8c6 100644
--- a/chromaprint/src/fingerprinter.rs
+++ b/chromaprint/src/fingerprinter.rs
@@ -188,7 +188,8 @@ impl Fingerprinter {
             config.frame_size,
             DEFAULT_SAMPLE_RATE,
             filter,
-        );
+        )
+        .with_interpolation(config.interpolate);
         let fft = Fft::new(config.frame_size, config.frame_overlap, chroma);
         let processor = AudioProcessor::new(
             DEFAULT_SAMPLE_RATE,
-- 
2.43.0


From f81dcbeacf19e2d934301aa58fb4c599b2ad4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 6/8] fix: continue the stream instead of feeding an unstarted
 fingerprinter for overlapped chunks

---
 fpcalc/src/main.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index b633661..68577b3 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -278,6 +278,7 @@ pub fn main() -> anyhow::Result<()> {
     }
 
     let mut first_chunk = true;
+    let mut printed_items = 0;
 
     loop {
         let audio_buf = match reader.next_buffer() {
@@ -330,7 +331,12 @@ pub fn main() -> anyhow::Result<()> {
                 let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
                     / f64::from(reader.sample_rate)
                     + overlap;
-                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+                result_printer.print_result(
+                    &printer.fingerprint()[printed_items..],
+                    first_chunk,
+                    ts,
+                    chunk_duration,
+                );
 
                 if args.ts {
                     ts = get_current_timestamp();
@@ -339,7 +345,8 @@ pub fn main() -> anyhow::Result<()> {
                 }
 
                 if args.overlap {
-                    printer = Fingerprinter::new(config);
+                    // Keep going, so the next chunk overlaps the current one.
+                    printed_items = printer.fingerprint().len();
                     ts -= overlap;
                 } else {
                     printer
@@ -376,7 +383,12 @@ pub fn main() -> anyhow::Result<()> {
     if chunk_size > 0 {
         let chunk_duration =
             (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
-        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);
+        result_printer.print_result(
+            &printer.fingerprint()[printed_items..],
+            first_chunk,
+            ts,
+            chunk_duration,
+        );
     }
 
     Ok(())
@@ -392,8 +404,7 @@ struct ResultPrinter<'a> {
 }
 
 impl<'a> ResultPrinter<'a> {
-    fn print_result(&self, printer: &Fingerprinter, first: bool, timestamp: f64, duration: f64) {
-        let raw_fingerprint = printer.fingerprint();
+    fn print_result(&self, raw_fingerprint: &[u32], first: bool, timestamp: f64, duration: f64) {
         let fp = if self.raw {
             if self.signed {
                 // FIXME: Use `u32.case_signed()` once it becomes stable.
-- 
2.43.0


From aa1fc6d2a6dac086a114ccf1711be57110dc913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 7/8] fix: compute the chunk overlap from the internal sample
 rate

---
 fpcalc/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 68577b3..0da75c3 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -273,8 +273,9 @@ pub fn main() -> anyhow::Result<()> {
     let mut overlap: f64 = 0.0;
 
     if chunk_limit > 0 && args.overlap {
-        extra_chunk_limit = config.delay();
-        overlap = (config.delay() as f64) * 1.0 / (sample_rate as f64) / 1000.0;
+        // The delay is expressed in samples at the internal sample rate.
+        overlap = config.delay() as f64 / f64::from(config.sample_rate());
+        extra_chunk_limit = (overlap * sample_rate as f64) as usize;
     }
 
     let mut first_chunk = true;
@@ -328,7 +329,7 @@ pub fn main() -> anyhow::Result<()> {
             if chunk_done {
                 printer.finish();
 
-                let chunk_duration = (chunk_size - extra_chunk_limit) as f64 * 1.0
+                let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
                     / f64::from(reader.sample_rate)
                     + overlap;
                 result_printer.print_result(
@@ -381,8 +382,9 @@ pub fn main() -> anyhow::Result<()> {
     printer.finish();
 
     if chunk_size > 0 {
-        let chunk_duration =
-            (chunk_size - extra_chunk_limit) as f64 * 1.0 / f64::from(reader.sample_rate) + overlap;
+        let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
+            / f64::from(reader.sample_rate)
+            + overlap;
         result_printer.print_result(
             &printer.fingerprint()[printed_items..],
             first_chunk,
-- 
2.43.0


From 8ce0e2d75195b39a89cfb2a60eb33a83f86b417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 8/8] fix: feed every sample of a decoded buffer that spans a
 chunk boundary

---
 fpcalc/src/main.rs | 104 ++++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 54 deletions(-)

diff --git a/fpcalc/src/main.rs b/fpcalc/src/main.rs
index 0da75c3..7c34d87 100644
--- a/fpcalc/src/main.rs
+++ b/fpcalc/src/main.rs
@@ -295,7 +295,7 @@ pub fn main() -> anyhow::Result<()> {
         }
 
         if let Some(buf) = &mut sample_buf {
-            let (stream_done, mut frame_size) = if stream_limit > 0 {
+            let (stream_done, frame_size) = if stream_limit > 0 {
                 let remaining = stream_limit - stream_size;
                 let frame_size = audio_buf.frames();
                 (frame_size > remaining, frame_size.min(remaining))
@@ -312,67 +312,63 @@ pub fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let first_part_size = frame_size;
-            let (chunk_done, first_part_size) = if chunk_limit > 0 {
-                let remaining = chunk_limit + extra_chunk_limit - chunk_size;
-                (first_part_size > remaining, first_part_size.min(remaining))
-            } else {
-                (false, first_part_size)
-            };
-
             buf.copy_interleaved_ref(audio_buf);
-            let frame_data = buf.samples();
-            printer.consume(&frame_data[..first_part_size * reader.channel_count]);
-
-            chunk_size += first_part_size;
-
-            if chunk_done {
-                printer.finish();
-
-                let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
-                    / f64::from(reader.sample_rate)
-                    + overlap;
-                result_printer.print_result(
-                    &printer.fingerprint()[printed_items..],
-                    first_chunk,
-                    ts,
-                    chunk_duration,
-                );
-
-                if args.ts {
-                    ts = get_current_timestamp();
+            let mut frame_data = &buf.samples()[..frame_size * reader.channel_count];
+            while !frame_data.is_empty() {
+                let first_part_size = frame_data.len() / reader.channel_count;
+                let (chunk_done, first_part_size) = if chunk_limit > 0 {
+                    let remaining = chunk_limit + extra_chunk_limit - chunk_size;
+                    (first_part_size > remaining, first_part_size.min(remaining))
                 } else {
-                    ts += chunk_duration;
-                }
+                    (false, first_part_size)
+                };
+
+                let (first_part, rest) =
+                    frame_data.split_at(first_part_size * reader.channel_count);
+                printer.consume(first_part);
+
+                chunk_size += first_part_size;
+
+                if chunk_done {
+                    printer.finish();
+
+                    let chunk_duration = (chunk_size as f64 - extra_chunk_limit as f64)
+                        / f64::from(reader.sample_rate)
+                        + overlap;
+                    result_printer.print_result(
+                        &printer.fingerprint()[printed_items..],
+                        first_chunk,
+                        ts,
+                        chunk_duration,
+                    );
+
+                    if args.ts {
+                        ts = get_current_timestamp();
+                    } else {
+                        ts += chunk_duration;
+                    }
 
-                if args.overlap {
-                    // Keep going, so the next chunk overlaps the current one.
-                    printed_items = printer.fingerprint().len();
-                    ts -= overlap;
-                } else {
-                    printer
-                        .start(reader.sample_rate, channel_count)
-                        .context("initializing fingerprinter")?;
-                }
+                    if args.overlap {
+                        // Keep going, so the next chunk overlaps the current one.
+                        printed_items = printer.fingerprint().len();
+                        ts -= overlap;
+                    } else {
+                        printer
+                            .start(reader.sample_rate, channel_count)
+                            .context("initializing fingerprinter")?;
+                    }
 
-                if first_chunk {
-                    extra_chunk_limit = 0;
-                    first_chunk = false;
-                }
+                    if first_chunk {
+                        extra_chunk_limit = 0;
+                        first_chunk = false;
+                    }
 
-                chunk_size = 0;
-            }
+                    chunk_size = 0;
+                }
 
-            frame_size -= first_part_size;
-            if frame_size > 0 {
-                printer.consume(
-                    &frame_data[(first_part_size * reader.channel_count)
-                        ..(frame_size * reader.channel_count)],
-                );
+                frame_data = rest;
             }
 
-            chunk_size += frame_size;
-
             if stream_done {
                 break;
             }
-- 
2.43.0

