From 9537e048d3d2c737691c3c5dc9cf0632bd7ece66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 01/16] fix: SkinningJob::run rejects what validate() rejects
 instead of panicking

Missing joint matrices with two or more influences panicked, and empty joint
matrices or tangents without normals were accepted by run() although
validate() rejects them.
---
 src/skinning_job.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..8a21673 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -413,7 +413,7 @@ macro_rules! pnt {
 macro_rules! skinning_1 {
     ($fn:ident, $it:tt, $pnt:tt) => {
         fn $fn(&mut self) -> Result<(), OzzError> {
-            let matrices = self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
+            let matrices = unpack_buf(&self.joint_matrices, 1)?;
             it!($it, let it_matrices = self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
             let indices = unpack_buf(&self.joint_indices, self.vertex_count)?;
 
@@ -447,7 +447,7 @@ macro_rules! skinning_1 {
 
 macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
-        let matrices = $self.joint_matrices.as_ref().unwrap().buf()?;
+        let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
         let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
         let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
@@ -532,6 +532,9 @@ where
         if self.influences_count == 0 {
             return Err(OzzError::InvalidJob);
         }
+        if self.in_normals.is_none() && self.in_tangents.is_some() {
+            return Err(OzzError::InvalidJob);
+        }
 
         let mut branch = (self.influences_count - 1).min(4) * 5;
         if self.in_normals.is_some() {
-- 
2.43.0


From 9b4d08beb12f3ddc5bfe293adfc73d56f80ef1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 02/16] fix: BlendingJob::run checks every layer before it
 writes the output

An invalid layer after a valid one (or an invalid additive layer) was only
detected once the output and the context had already been modified.
---
 src/blending_job.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..5dc4ea6 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -309,6 +309,8 @@ where
         if !ok {
             return Err(OzzError::InvalidJob);
         }
+        Self::check_layers(skeleton, &self.layers)?;
+        Self::check_layers(skeleton, &self.additive_layers)?;
 
         ctx.num_partial_passes = 0;
         ctx.num_passes = 0;
@@ -324,6 +326,18 @@ where
         Ok(())
     }
 
+    fn check_layers(skeleton: &Skeleton, layers: &[BlendingLayer<I>]) -> Result<(), OzzError> {
+        for layer in layers {
+            if layer.transform.buf()?.len() < skeleton.num_soa_joints() {
+                return Err(OzzError::InvalidJob);
+            }
+            if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
+                return Err(OzzError::InvalidJob);
+            }
+        }
+        Ok(())
+    }
+
     fn blend_layers(
         skeleton: &Skeleton,
         ctx: &mut BlendingContext,
@@ -334,12 +348,6 @@ where
 
         for layer in layers {
             let transform = layer.transform.buf()?;
-            if transform.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
-            if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
 
             if layer.weight <= 0.0 {
                 continue;
@@ -438,12 +446,6 @@ where
 
         for layer in layers {
             let transform = layer.transform.buf()?;
-            if transform.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
-            if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
 
             if layer.weight > 0.0 {
                 let layer_weight = f32x4::splat(layer.weight);
-- 
2.43.0


From fd26f9c26cbd4c8b291c084ca7e3ca2e08591ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 03/16] fix: BlendingJob accepts an output larger than the
 skeleton when only the rest pose is blended

copy_from_slice() panicked for an output buffer that validate() accepts.
---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 5dc4ea6..1c69c74 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -398,7 +398,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From 09ef629de85fb5cf75c54d4f00fb3748be5e3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:01 +0000
Subject: [PATCH 04/16] fix: Skeleton::from_archive loads a skeleton without
 joints

The ozz writer stops after num_joints when it is zero (read_meta already
knows), so there is no character count to read.
---
 src/skeleton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..5c770c2 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -124,6 +124,9 @@ impl Skeleton {
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
         let meta = Skeleton::read_meta(archive, false)?;
         let mut skeleton = Skeleton::new(meta);
+        if skeleton.num_joints() == 0 {
+            return Ok(skeleton);
+        }
 
         let _char_count: u32 = archive.read()?;
         for idx in 0..skeleton.num_joints() {
-- 
2.43.0


From 649178371ea7c7c8b11391065a363e1b1aeb8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:39 +0000
Subject: [PATCH 05/16] fix: reading a bool from an archive accepts any byte

A byte other than 0 and 1 was written into a bool directly, which is
undefined behaviour. The ozz reader treats any non-zero byte as true.
---
 src/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 528133e..048421c 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -167,7 +167,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -179,6 +178,14 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        let val = u8::read(archive)?;
+        Ok(val != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From cd6d75344121a880785ac8e2c6383b77551e9820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:39 +0000
Subject: [PATCH 06/16] fix: nodejs::read_file reports a missing file instead
 of panicking

---
 src/nodejs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodejs.rs b/src/nodejs.rs
index 2014c86..acdef54 100644
--- a/src/nodejs.rs
+++ b/src/nodejs.rs
@@ -12,7 +12,7 @@ extern "C" {
 }
 
 pub fn read_file(path: &str) -> Result<Vec<u8>, Error> {
-    let buf = read_file_sync(path).unwrap();
+    let buf = read_file_sync(path)?;
     let array = Uint8Array::new(&buf);
     Ok(array.to_vec())
 }
-- 
2.43.0


From 8cdd8e7a851c21e7a45033e73593b195c445260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 07/16] fix: sin/cos of NaN, infinite or huge angles is no
 undefined behaviour

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..168f6a8 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1143,7 +1143,7 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    let quadrant_int: i32x4 = quadrant.cast();
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From d55b026afadf57b1f1e196bb21ca7f0b2273adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 08/16] fix: decoding an i-frame never reads past the end of
 the stream

---
 src/sampling_job.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..34a6cc2 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -1396,16 +1396,11 @@ fn decode_gv4<'t>(buffer: &'t [u8], output: &mut [u32]) -> &'t [u8] {
     #[inline(always)]
     fn load(input: &[u8]) -> u32 {
         // In C++ code (ozz-animation), load() access to input overflows near the end of the buffer.
-        // But the code logic ensures that this doesn't cause problems.
-        // Here, we're completely following the logic of the original C++ library.
-        let p = input.as_ptr();
-        unsafe {
-            let i0 = *p as u32;
-            let i1 = (*p.add(1) as u32) << 8;
-            let i2 = (*p.add(2) as u32) << 16;
-            let i3 = (*p.add(3) as u32) << 24;
-            i0 | i1 | i2 | i3
-        }
+        // Here, bytes beyond the end are taken as zeros, the mask drops them anyway.
+        let mut bytes = [0u8; 4];
+        let len = input.len().min(4);
+        bytes[..len].copy_from_slice(&input[..len]);
+        u32::from_le_bytes(bytes)
     }
 
     let prefix = buffer[0];
-- 
2.43.0


From b34a6a22a0b467dc9058fb7610c29a2d0b39b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 09/16] fix: a new SamplingContext is zeroed instead of
 exposing uninitialized memory

---
 src/sampling_job.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 34a6cc2..c2eaa76 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,10 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From 093aa9812fb33f17323fbc4f8551bf0ec0d34856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 10/16] fix: empty assets are not allocated with size zero, and
 a failed allocation is reported

---
 src/animation.rs | 7 +++++--
 src/skeleton.rs  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..49d1767 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -223,7 +223,7 @@ impl Drop for Animation {
     fn drop(&mut self) {
         if !self.timepoints.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::size_of::<f32>());
                 alloc::dealloc(self.timepoints as *mut u8, layout);
             }
             self.timepoints = std::ptr::null_mut();
@@ -559,8 +559,11 @@ impl Animation {
         animation.size += animation.s_iframe_desc_count as usize * mem::size_of::<u32>(); // s_iframe_desc
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
+            let layout = Layout::from_size_align_unchecked(animation.size.max(1), mem::size_of::<f32>());
             let mut ptr = alloc::alloc(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             animation.timepoints = ptr as *mut f32;
             ptr = ptr.add(animation.timepoints_count as usize * mem::size_of::<f32>());
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 5c770c2..1230e73 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -42,7 +42,7 @@ impl Drop for Skeleton {
     fn drop(&mut self) {
         if !self.joint_rest_poses.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::align_of::<SoaTransform>());
                 alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
             }
             self.joint_rest_poses = std::ptr::null_mut();
@@ -192,8 +192,11 @@ impl Skeleton {
             mem::size_of::<SoaTransform>() * skeleton.num_soa_joints() + mem::size_of::<i16>() * skeleton.num_joints();
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
+            let layout = Layout::from_size_align_unchecked(skeleton.size.max(1), ALIGN);
             let mut ptr = alloc::alloc(layout);
+            if ptr.is_null() {
+                alloc::handle_alloc_error(layout);
+            }
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
             ptr = ptr.add(mem::size_of::<SoaTransform>() * skeleton.num_soa_joints());
-- 
2.43.0


From b4f38c76e9f531fe987fdb42e8dca5a2b0630e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:31 +0000
Subject: [PATCH 11/16] fix: the largest half float is not decompressed as
 infinity

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 168f6a8..79e646d 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From ef910cbfbfeea20b9c471da804e01748c1aca7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:31 +0000
Subject: [PATCH 12/16] fix: LocalToModelJob accepts i32::MAX as from and to

---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From e26d71259912e83a96ce9f57fddb385234525570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:31 +0000
Subject: [PATCH 13/16] fix: BlendingJobRef writes to a slice of transforms

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 1c69c74..73cefc4 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 27e8c2b9a826ee71650ab604dfb05b0e4092f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:39 +0000
Subject: [PATCH 14/16] fix: sampling works with a context larger than the
 animation

---
 src/sampling_job.rs | 54 ++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index c2eaa76..79e1cf9 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -577,21 +577,27 @@ impl SamplingContext {
     #[inline]
     fn translation_update_args<'t>(&'t mut self, animation: &Animation) -> UpdateArgs<'t> {
         let inner = self.inner_mut();
+        let num_soa_tracks = animation.num_soa_tracks();
         UpdateArgs {
             num_tracks: animation.num_tracks(),
-            num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            num_soa_tracks,
+            entries: unsafe { &mut slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks)[..num_soa_tracks * 4] },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             next: &mut inner.translation_next,
         }
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
         }
     }
@@ -599,21 +605,27 @@ impl SamplingContext {
     #[inline]
     fn rotation_update_args(&mut self, animation: &Animation) -> UpdateArgs<'_> {
         let inner = self.inner_mut();
+        let num_soa_tracks = animation.num_soa_tracks();
         UpdateArgs {
             num_tracks: animation.num_tracks(),
-            num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            num_soa_tracks,
+            entries: unsafe { &mut slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks)[..num_soa_tracks * 4] },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             next: &mut inner.rotation_next,
         }
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
         }
     }
@@ -621,21 +633,27 @@ impl SamplingContext {
     #[inline]
     fn scale_update_args(&mut self, animation: &Animation) -> UpdateArgs<'_> {
         let inner = self.inner_mut();
+        let num_soa_tracks = animation.num_soa_tracks();
         UpdateArgs {
             num_tracks: animation.num_tracks(),
-            num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            num_soa_tracks,
+            entries: unsafe { &mut slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks)[..num_soa_tracks * 4] },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             next: &mut inner.scale_next,
         }
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
+        let num_soa_tracks = animation.num_soa_tracks();
         DecompressArgs {
             entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            outdated: unsafe {
+                &mut slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated)[..num_soa_tracks.div_ceil(8)]
+            },
             values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
         }
     }
@@ -1118,17 +1136,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From e18d04f27441f54cbea3f72a3f8f3959745cc0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:23 +0000
Subject: [PATCH 15/16] fix: SamplingContext deserializes from any serde source
 and in any field order

---
 src/sampling_job.rs | 117 ++++++++++++++++----------------------------
 1 file changed, 43 insertions(+), 74 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 79e1cf9..59a97ac 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -813,7 +813,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::de::{self, MapAccess, Visitor};
+    use serde::de;
     use serde::ser::SerializeMap;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -842,82 +842,51 @@ const _: () = {
         }
     }
 
-    impl<'de> Deserialize<'de> for SamplingContext {
-        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
-            deserializer.deserialize_map(SamplingContextVisitor)
+    #[derive(Deserialize)]
+    struct SamplingContextData {
+        max_tracks: usize,
+        animation_id: u64,
+        ratio: f32,
+        translations: Vec<InterpSoaFloat3>,
+        translation_entries: Vec<u32>,
+        translation_outdated: Vec<u8>,
+        translation_next: usize,
+        rotations: Vec<InterpSoaQuaternion>,
+        rotation_entries: Vec<u32>,
+        rotation_outdated: Vec<u8>,
+        rotation_next: usize,
+        scales: Vec<InterpSoaFloat3>,
+        scale_entries: Vec<u32>,
+        scale_outdated: Vec<u8>,
+        scale_next: usize,
+    }
+
+    fn copy<T: Copy, E: de::Error>(dst: &mut [T], src: &[T]) -> Result<(), E> {
+        if dst.len() != src.len() {
+            return Err(de::Error::invalid_length(src.len(), &"a length matching max_tracks"));
         }
+        dst.copy_from_slice(src);
+        Ok(())
     }
 
-    struct SamplingContextVisitor;
-
-    impl<'de> Visitor<'de> for SamplingContextVisitor {
-        type Value = SamplingContext;
-
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            formatter.write_str("struct SamplingContext")
-        }
-
-        fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
-            let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
-                }
-            }
-            let mut ctx: SamplingContext = match max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
-                None => return Err(de::Error::custom("Miss field max_tracks")),
-            };
-
-            while let Some(key) = map.next_key()? {
-                match key {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
-            }
+    impl<'de> Deserialize<'de> for SamplingContext {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
+            let data = SamplingContextData::deserialize(deserializer)?;
+            let mut ctx = SamplingContext::new(data.max_tracks);
+            ctx.set_animation_id(data.animation_id);
+            ctx.set_ratio(data.ratio);
+            copy(ctx.translations_mut(), &data.translations)?;
+            copy(ctx.translation_entries_mut(), &data.translation_entries)?;
+            copy(ctx.translation_outdated_mut(), &data.translation_outdated)?;
+            ctx.set_translation_next(data.translation_next);
+            copy(ctx.rotations_mut(), &data.rotations)?;
+            copy(ctx.rotation_entries_mut(), &data.rotation_entries)?;
+            copy(ctx.rotation_outdated_mut(), &data.rotation_outdated)?;
+            ctx.set_rotation_next(data.rotation_next);
+            copy(ctx.scales_mut(), &data.scales)?;
+            copy(ctx.scale_entries_mut(), &data.scale_entries)?;
+            copy(ctx.scale_outdated_mut(), &data.scale_outdated)?;
+            ctx.set_scale_next(data.scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From ff1298401a68af94b8d9f36c425948d7fa4a81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:54 +0000
Subject: [PATCH 16/16] fix: SoaVec3, SoaQuat and interpolation keys announce
 their serde length as the fixed arrays they are read as

---
 src/math.rs         | 8 ++++----
 src/sampling_job.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 79e646d..e4d0468 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,12 +220,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(3)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
@@ -459,12 +459,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(4)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 59a97ac..2e75338 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,12 +122,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Deserializer, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
+        let mut seq = serializer.serialize_tuple(2)?;
         seq.serialize_element(value[0].as_array())?;
         seq.serialize_element(value[1].as_array())?;
         seq.end()
-- 
2.43.0

