From d2b25f86aa6e485ddf4d87b02025c2690678e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 01/10] fix: Drop the oldest blocks when shrinking the maximum
 history

Previously the history was padded with zero-energy blocks when it had fewer
elements than the new maximum, and was not shortened (and then never limited
again) when it had more elements than the new maximum.
---
 src/history.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index de97a0e..69f7bd2 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -179,9 +179,10 @@ impl Queue {
     }
 
     fn set_max_size(&mut self, max: usize) {
-        if self.queue.len() < max {
+        // Drop the oldest elements if there are more than allowed now
+        if self.queue.len() > max {
+            self.queue.drain(..self.queue.len() - max);
             // FIXME: Use shrink() once stabilized
-            self.queue.resize(max, 0.0);
             self.queue.shrink_to_fit();
         }
         self.max = max;
-- 
2.43.0


From d7e206824b966a14b9756569837177849d8a98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 02/10] fix: Allocate space for all 100ms blocks of the window
 for low sample rates

The number of frames per 100ms is rounded up for some sample rates, and for
low sample rates the audio buffer was then too small to contain the 4 blocks
needed for momentary loudness (panic in add_frames()) or the 30 blocks needed
for short-term loudness (InvalidMode errors from add_frames() and
loudness_shortterm()).
---
 src/ebur128.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index ff7b88c..c6b0f87 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -265,6 +265,14 @@ impl EbuR128 {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
         let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // The number of samples per 100ms is rounded, so for low sample rates make sure that all
+        // 100ms blocks of the window actually fit
+        audio_data_frames = std::cmp::max(
+            audio_data_frames,
+            samples_in_100ms
+                .checked_mul(window / 100)
+                .ok_or(Error::NoMem)?,
+        );
         if audio_data_frames % samples_in_100ms != 0 {
             // round up to multiple of samples_in_100ms
             audio_data_frames = audio_data_frames
-- 
2.43.0


From 4fea082355bb0d0d0b8738f581dcb396611f14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 03/10] fix: Return an error instead of panicking on a wrong
 number of planar channels

add_frames_planar_*() and seed_frames_planar_*() asserted that the number of
planes is the same as the configured number of channels.
---
 src/ebur128.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index c6b0f87..47cd973 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -584,6 +584,10 @@ impl EbuR128 {
             return Err(Error::NoMem);
         }
 
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.reset_peaks();
 
         while src.frames() > 0 {
@@ -668,8 +672,17 @@ impl EbuR128 {
         Ok(())
     }
 
-    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(&mut self, src: S) {
+    fn seed_frames<'a, T: Sample + 'a, S: crate::Samples<'a, T>>(
+        &mut self,
+        src: S,
+    ) -> Result<(), Error> {
+        if src.channels() != self.channels as usize {
+            return Err(Error::NoMem);
+        }
+
         self.filter.seed(src, &self.channel_map);
+
+        Ok(())
     }
 
     /// Add interleaved frames to be processed.
@@ -715,57 +728,49 @@ impl EbuR128 {
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i16(&mut self, frames: &[i16]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_i32(&mut self, frames: &[i32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f32(&mut self, frames: &[f32]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add interleaved frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_f64(&mut self, frames: &[f64]) -> Result<(), Error> {
-        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?);
-        Ok(())
+        self.seed_frames(crate::Interleaved::new(frames, self.channels as usize)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i16(&mut self, frames: &[&[i16]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_i32(&mut self, frames: &[&[i32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f32(&mut self, frames: &[&[f32]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Add planar frames to warmup filters, but not be considered for measurements.
     /// See [`EbuR128::loudness_global_multiple`] for example usage.
     pub fn seed_frames_planar_f64(&mut self, frames: &[&[f64]]) -> Result<(), Error> {
-        self.seed_frames(crate::Planar::new(frames)?);
-        Ok(())
+        self.seed_frames(crate::Planar::new(frames)?)
     }
 
     /// Get global integrated loudness in LUFS.
-- 
2.43.0


From 454f6404fbc2e83d085d431eaf834b0ecf089e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 04/10] fix: Return NoMem instead of aborting if the audio
 buffer can't be allocated

---
 src/ebur128.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 47cd973..3cfbd51 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -281,15 +281,17 @@ impl EbuR128 {
                 - (audio_data_frames % samples_in_100ms);
         }
 
-        let audio_data = vec![
-            0.0;
-            audio_data_frames
-                .checked_mul(channels as usize)
-                .ok_or(Error::NoMem)?
-        ]
-        .into_boxed_slice();
+        let audio_data_len = audio_data_frames
+            .checked_mul(channels as usize)
+            .ok_or(Error::NoMem)?;
+
+        let mut audio_data = Vec::new();
+        audio_data
+            .try_reserve_exact(audio_data_len)
+            .map_err(|_| Error::NoMem)?;
+        audio_data.resize(audio_data_len, 0.0);
 
-        Ok(audio_data)
+        Ok(audio_data.into_boxed_slice())
     }
 
     /// Create a new instance with the given configuration.
-- 
2.43.0


From 4c0c7cfc56478697ee4c1cddf414bbc81e8fb856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 05/10] fix: Reject invalid channel types in
 ebur128_set_channel

---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 34142a4..a79fa99 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -79,6 +79,11 @@ pub unsafe extern "C" fn ebur128_set_channel(
     let s = &mut *state;
     let e = &mut *s.internal;
 
+    // Anything else is not a valid discriminant of the enum
+    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 {
+        return ebur128::Error::InvalidChannelIndex.into();
+    }
+
     match e.set_channel(
         channel_number,
         mem::transmute::<i32, ebur128::Channel>(value),
-- 
2.43.0


From 354272c05f4ae361e07ddcf3bacf929e7e0f98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 06/10] fix: Return NO_CHANGE from the C API if the clamped
 maximum did not change

---
 src/capi.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index a79fa99..b65ac89 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -129,12 +129,12 @@ pub unsafe extern "C" fn ebur128_set_max_window(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_window() == window as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_window = e.max_window();
 
     match e.set_max_window(window as u32) {
         Err(err) => err.into(),
+        // The window might've been clamped to the minimum
+        Ok(_) if e.max_window() == old_window => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
@@ -151,12 +151,12 @@ pub unsafe extern "C" fn ebur128_set_max_history(
     let s = &mut *state;
     let e = &mut *s.internal;
 
-    if e.max_history() == history as usize {
-        return 4; // EBUR128_ERROR_NO_CHANGE
-    }
+    let old_history = e.max_history();
 
     match e.set_max_history(history as u32) {
         Err(err) => err.into(),
+        // The history might've been clamped to the minimum
+        Ok(_) if e.max_history() == old_history => 4, // EBUR128_ERROR_NO_CHANGE
         Ok(_) => 0,
     }
 }
-- 
2.43.0


From 59deafe46c111f5b4914067ec9b4943f1d3db8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:29 +0000
Subject: [PATCH 07/10] fix: Return INVALID_MODE from ebur128_loudness_window
 for too big windows

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index b65ac89..3825780 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -321,7 +321,7 @@ pub unsafe extern "C" fn ebur128_loudness_window(
     let e = &*s.internal;
 
     if window > u32::MAX as std::os::raw::c_ulong {
-        return ebur128::Error::NoMem.into();
+        return ebur128::Error::InvalidMode.into();
     }
 
     match e.loudness_window(window as u32) {
-- 
2.43.0


From f7cc50aff3f27db6bf673388c03c18490159a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 08/10] fix: Don't truncate too big sample rates in the C API

---
 src/capi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 3825780..c4d99dd 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -26,6 +26,10 @@ pub unsafe extern "C" fn ebur128_init(
     // Same values as our Mode enum
     mode: i32,
 ) -> *mut State {
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ptr::null_mut();
+    }
+
     let e = match ebur128::EbuR128::new(
         channels,
         samplerate as u32,
@@ -105,6 +109,10 @@ pub unsafe extern "C" fn ebur128_change_parameters(
         return 4; // EBUR128_ERROR_NO_CHANGE
     }
 
+    if samplerate > u32::MAX as std::os::raw::c_ulong {
+        return ebur128::Error::NoMem.into();
+    }
+
     let e = &mut *s.internal;
 
     match e.change_parameters(channels, samplerate as u32) {
-- 
2.43.0


From 3fd4b3043dfb0cb3d2a922dd4f6958419bf1afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 09/10] fix: Accept NULL pointers for empty arrays in the C API

---
 src/capi.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index c4d99dd..425cafc 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -1,6 +1,6 @@
 use crate::ebur128;
 
-use std::{mem, ptr};
+use std::{mem, ptr, slice};
 
 // ABI compatible with ebur128_state
 #[repr(C)]
@@ -63,6 +63,15 @@ pub unsafe extern "C" fn ebur128_destroy(state: *mut *mut State) {
     *state = ptr::null_mut();
 }
 
+// NULL is valid for empty arrays in C but not for Rust slices
+unsafe fn slice_from_raw<'a, T>(data: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(data, len)
+    }
+}
+
 impl From<ebur128::Error> for i32 {
     fn from(v: ebur128::Error) -> i32 {
         match v {
@@ -175,8 +184,6 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
     src: *const i16,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -185,7 +192,7 @@ pub unsafe extern "C" fn ebur128_add_frames_short(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i16(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i16(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -197,8 +204,6 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
     src: *const i32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -207,7 +212,7 @@ pub unsafe extern "C" fn ebur128_add_frames_int(
         Some(samples) => samples,
     };
 
-    match e.add_frames_i32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_i32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -219,8 +224,6 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
     src: *const f32,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -229,7 +232,7 @@ pub unsafe extern "C" fn ebur128_add_frames_float(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f32(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f32(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -241,8 +244,6 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
     src: *const f64,
     frames: usize,
 ) -> i32 {
-    use std::slice;
-
     let s = &mut *state;
     let e = &mut *s.internal;
 
@@ -251,7 +252,7 @@ pub unsafe extern "C" fn ebur128_add_frames_double(
         Some(samples) => samples,
     };
 
-    match e.add_frames_f64(slice::from_raw_parts(src, samples)) {
+    match e.add_frames_f64(slice_from_raw(src, samples)) {
         Err(err) => err.into(),
         Ok(_) => 0,
     }
@@ -277,9 +278,7 @@ pub unsafe extern "C" fn ebur128_loudness_global_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_global_multiple(iter) {
@@ -361,9 +360,7 @@ pub unsafe extern "C" fn ebur128_loudness_range_multiple(
     size: usize,
     out: *mut f64,
 ) -> i32 {
-    use std::slice;
-
-    let s = slice::from_raw_parts(state, size);
+    let s = slice_from_raw(state, size);
     let iter = s.iter().copied().map(|s: *mut State| &*(*s).internal);
 
     match ebur128::EbuR128::loudness_range_multiple(iter) {
-- 
2.43.0


From dfe01ea7803bbd2cc04893de9b0a4be53f0bbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 10/10] fix: windows of more than 2^32 / rate milliseconds on
 32-bit platforms

rate * window overflowed usize there, so that valid combinations like
EbuR128::new(1, 2822400, Mode::S) failed with NoMem and loudness_window()
with InvalidMode although the windows fit into memory.
---
 src/ebur128.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ebur128.rs b/src/ebur128.rs
index 3cfbd51..f69f0f7 100644
--- a/src/ebur128.rs
+++ b/src/ebur128.rs
@@ -24,6 +24,7 @@ use crate::utils::Sample;
 
 use bitflags::bitflags;
 
+use std::convert::TryFrom;
 use std::error;
 use std::fmt;
 
@@ -264,7 +265,11 @@ impl EbuR128 {
     fn allocate_audio_data(channels: u32, rate: u32, window: usize) -> Result<Box<[f64]>, Error> {
         let samples_in_100ms = (rate as usize + 5) / 10;
 
-        let mut audio_data_frames = (rate as usize).checked_mul(window).ok_or(Error::NoMem)? / 1000;
+        // The product can be beyond 32 bits for windows that fit into memory
+        let mut audio_data_frames = (rate as u64)
+            .checked_mul(window as u64)
+            .and_then(|v| usize::try_from(v / 1000).ok())
+            .ok_or(Error::NoMem)?;
         // The number of samples per 100ms is rounded, so for low sample rates make sure that all
         // 100ms blocks of the window actually fit
         audio_data_frames = std::cmp::max(
@@ -855,10 +860,9 @@ impl EbuR128 {
     /// window must not be larger than the current window. The current window can be changed by
     /// calling [`EbuR128::set_max_window`](struct.EbuR128.html#method.set_max_window).
     pub fn loudness_window(&self, window: u32) -> Result<f64, Error> {
-        let interval_frames = (self.rate as usize)
-            .checked_mul(window as usize)
-            .ok_or(Error::InvalidMode)?
-            / 1000;
+        // The product can be beyond 32 bits for windows that are not too large
+        let interval_frames = usize::try_from(self.rate as u64 * window as u64 / 1000)
+            .map_err(|_| Error::InvalidMode)?;
         let energy = self.energy_in_interval(interval_frames)?;
 
         if energy <= 0.0 {
-- 
2.43.0

