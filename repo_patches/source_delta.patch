From 4248d6176da37c942e141c547ccc7c3940e187a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 01/42] fix: stamp the dark frame when DynamicDarkCalibrator
 resets it

---
 specula/processing_objects/dynamic_dark_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..7718983 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -183,6 +183,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
             self.darkframe.pixels *= 0
+            self.darkframe.generation_time = self.current_time
 
         # Interactive inputs are protected frome exceptions
         try:
-- 
2.43.0


From 018f9f25f90797babe177ea3341ab9be9980213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 02/42] fix: load the dark frame from disk in
 DynamicDarkCalibrator

---
 specula/processing_objects/dynamic_dark_calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 7718983..7292075 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -203,7 +203,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                restored = Pixels.restore(fullpath, target_device_idx=self.target_device_idx)
+                self.darkframe.set_value(restored.get_value())
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {e.__name__}: {e}')
-- 
2.43.0


From 59a4c9bef713d7d3ecdf33d55e841728882b1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:44 +0000
Subject: [PATCH 03/42] fix: report the exception type name in interactive
 input handlers

---
 specula/processing_objects/dynamic_dark_calibrator.py       | 4 ++--
 specula/processing_objects/dynamic_iir_filter.py            | 2 +-
 specula/processing_objects/dynamic_integrator.py            | 2 +-
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 7292075..e780138 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -194,7 +194,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -207,7 +207,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.set_value(restored.get_value())
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..1678751 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -91,4 +91,4 @@ class DynamicIntegrator(Integrator):
                 int_gain = float(gain_input.value)
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..2bb117e 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From c67d3f7e49c2fae5fea39b93af1c7cd6016bcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 04/42] fix: PowerLoss.post_trigger calls the base class
 housekeeping

---
 specula/processing_objects/power_loss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/power_loss.py b/specula/processing_objects/power_loss.py
index 9ca793a..a70a47b 100644
--- a/specula/processing_objects/power_loss.py
+++ b/specula/processing_objects/power_loss.py
@@ -53,4 +53,5 @@ class PowerLoss(BaseProcessingObj):
         self.power_loss.value = 10*np.log10(power)
 
     def post_trigger(self):
+        super().post_trigger()
         self.power_loss.generation_time = self.current_time
-- 
2.43.0


From 8a0db51233d20b3e327a21fe04bb0f63f28b91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 05/42] fix: composite sensors return the readiness reported by
 check_ready

---
 specula/processing_objects/distributed_sh.py | 3 ++-
 specula/processing_objects/poly_chrom_wfs.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..5198e56 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -91,9 +91,10 @@ class DistributedSH(SH):
         any calculation, but call the BaseProcessingObj one for housekeeping.
         Then call all sub-SHs
         '''
-        BaseProcessingObj.check_ready(self, t)
+        ready = BaseProcessingObj.check_ready(self, t)
         for sh in self.sub_sh:
             sh.check_ready(t)
+        return ready
 
     def prepare_trigger(self, t):
         '''
diff --git a/specula/processing_objects/poly_chrom_wfs.py b/specula/processing_objects/poly_chrom_wfs.py
index e7a4ba0..0b2e6dc 100644
--- a/specula/processing_objects/poly_chrom_wfs.py
+++ b/specula/processing_objects/poly_chrom_wfs.py
@@ -116,12 +116,14 @@ class PolyChromWFS(BaseProcessingObj):
             self.flux_factor_normalized = self.flux_factor
 
     def check_ready(self, t):
-        super().check_ready(t)
+        ready = super().check_ready(t)
 
         # Check if all SH are ready
         for wfs in self._wfs_instances:
             wfs.check_ready(t)
 
+        return ready
+
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
 
-- 
2.43.0


From 27e41315d3bb078aa97612dde82411172ae3dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 06/42] fix: reduce copies of shared calibration matrices, not
 the originals

---
 specula/processing_objects/modal_analysis.py | 5 +++++
 specula/processing_objects/modalrec.py       | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..3e679e7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula import cpuArray
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
@@ -59,11 +61,14 @@ class ModalAnalysis(BaseProcessingObj):
         elif ifunc is None and ifunc_inv is not None:
             # Use ifunc_inv directly, don't attempt to call inverse() on None
             if nmodes is not None and nmodes != ifunc_inv.size[0]:
+                # Work on a copy, the original may be shared with other objects
+                ifunc_inv = copy(ifunc_inv)
                 ifunc_inv.cut(nmodes=nmodes)
             self.phase2modes = ifunc_inv
         elif ifunc is not None and ifunc_inv is None:
             # This is the case where only ifunc is provided
             if nmodes is not None and nmodes != ifunc.size[0]:
+                ifunc = copy(ifunc)
                 ifunc.cut(nmodes=nmodes)
             self.phase2modes = ifunc.inverse()
         else:  # Both are provided
diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..f9e992f 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -43,6 +45,8 @@ class Modalrec(BaseProcessingObj):
                     recmat = Recmat(self.xp.identity(nmodes),
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
+                    # Work on a copy, the original may be shared with other objects
+                    intmat = copy(intmat)
                     if nmodes:
                         nmodesintmat = intmat.size[0]
                         intmat.reduce_size(nmodesintmat - nmodes)
@@ -53,6 +57,7 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    recmat = copy(recmat)
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -69,6 +74,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy(recmat)
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 0844957dddb4cf4c38479dbe8e8cc188f3010fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 07/42] fix: ExtendedSource owns its PSF array

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..fc99444 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -95,7 +95,7 @@ class ExtendedSource(BaseProcessingObj):
         self.flux_threshold = flux_threshold
         self.psf = BaseValue(target_device_idx=self.target_device_idx, precision=precision)
         if initial_psf is not None:
-            self.psf.value = self.to_xp(initial_psf, dtype=self.dtype)
+            self.psf.value = self.to_xp(initial_psf, dtype=self.dtype, force_copy=True)
         else:
             self.psf.value = self.xp.zeros((3, 3), dtype=self.dtype)
             self.psf.value[1, 1] = 1.0  # Default initial PSF is a delta function
-- 
2.43.0


From 14c74d25ed706eb77155733eaf23faa69f0713e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:14 +0000
Subject: [PATCH 08/42] fix: BaseSlicer output does not share memory with its
 input

---
 specula/processing_objects/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..6f0bb46 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -57,7 +57,7 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From acd69189389412c145c77ebf1b3e0c5c71470c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 09/42] fix: SH padded wavefront buffers with different
 paddings do not share memory

---
 specula/processing_objects/sh.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..20d12ea 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -72,7 +72,7 @@ class SH(BaseProcessingObj):
 
     __zeros_cache = {}
 
-    def _zeros_common(self, shape, dtype):
+    def _zeros_common(self, shape, dtype, layout=None):
         """
         Wrapper around self.xp.zeros to enable reuse cache.
         None of the arrays allocated here should be used in 
@@ -84,13 +84,16 @@ class SH(BaseProcessingObj):
             Array shape
         dtype : dtype
             Data type
-            
+        layout : hashable, optional
+            Extra cache key, needed when only a part of the array is written
+            and the rest must stay zero.
+
         Returns
         -------
         array : ndarray
             Array from cache
         """
-        key = (self.target_device_idx, shape, dtype)
+        key = (self.target_device_idx, shape, dtype, layout)
         if key not in self.__zeros_cache:
             self.__zeros_cache[key] = self.xp.zeros(shape, dtype=dtype)
         return self.__zeros_cache[key]
@@ -353,7 +356,8 @@ class SH(BaseProcessingObj):
 
         # Padded subaperture cube extracted from full pupil
         self._wf3 = self._zeros_common((self._lenslet.dimy, fft_size, fft_size),
-                                       dtype=self.complex_dtype)
+                                       dtype=self.complex_dtype,
+                                       layout=self._ovs_np_sub)
 
         # Focal plane result from FFT
         fp4_pixel_pitch = self.wavelength_in_nm / 1e9 / (ovs_pixel_pitch * fft_size)
-- 
2.43.0


From 21e932e141cffd249ed298a13a8bcf02ffae9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:07 +0000
Subject: [PATCH 10/42] fix: seconds_to_t rounds to the nearest tick instead of
 truncating

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..b76ac1d 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(seconds * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 039ae74866390a4752f3b390adad4f1dd2bc19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:07 +0000
Subject: [PATCH 11/42] fix: LoopControl flags the iteration that is really the
 last one

---
 specula/loop_control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..cb15c46 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -35,11 +35,12 @@ class LoopControl(BaseTimeObj):
     def niters(self):
         """
         Calculate the number of iterations based on the run time and time step.
+        A last, partial time step counts as a full iteration.
 
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
@@ -114,6 +115,7 @@ class LoopControl(BaseTimeObj):
             process_comm.barrier()
         
         self.t = self.t0
+        self.iter_counter = 0
         self.last_reported_time = time.time()
         self.last_reported_counter = 0
         self.report_interval = 10
-- 
2.43.0


From 864b3fd646e355986607a99838e04fc746e4f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:52 +0000
Subject: [PATCH 12/42] fix: objects created internally use the precision and
 device of their owner

---
 specula/data_objects/iir_filter_data.py              | 12 ++++++------
 specula/data_objects/intmat.py                       |  4 ++--
 specula/processing_objects/atmo_propagation.py       |  5 +++--
 specula/processing_objects/atmo_random_phase.py      |  3 ++-
 specula/processing_objects/ccd.py                    |  2 +-
 specula/processing_objects/cur_wfs_slopec.py         |  3 ++-
 specula/processing_objects/data_buffer.py            |  2 +-
 specula/processing_objects/data_source.py            |  2 +-
 .../dynamic_pyr_pupdata_calibrator.py                |  2 +-
 specula/processing_objects/extended_source.py        |  2 +-
 specula/processing_objects/im_calibrator.py          |  6 ++++--
 specula/processing_objects/integrator.py             |  3 ++-
 specula/processing_objects/low_pass_filter.py        |  6 ++++--
 specula/processing_objects/modal_analysis.py         |  4 ++--
 specula/processing_objects/multi_im_calibrator.py    |  6 ++++--
 specula/processing_objects/phase_screen_cube.py      | 10 +++++++---
 specula/processing_objects/power_loss.py             |  2 +-
 specula/processing_objects/psf.py                    |  3 ++-
 specula/processing_objects/sh.py                     |  2 +-
 specula/processing_objects/sh_slopec.py              |  2 +-
 specula/processing_objects/sh_subap_calibrator.py    |  2 +-
 specula/processing_objects/slopec.py                 | 10 ++++++----
 specula/processing_objects/sn_calibrator.py          |  2 +-
 specula/processing_objects/spot_monitor.py           |  6 +++---
 specula/processing_objects/sprint_pyr.py             |  3 ++-
 specula/processing_objects/zwfs_slopec.py            |  3 ++-
 specula/template_processing_obj.py                   |  2 +-
 27 files changed, 64 insertions(+), 45 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..4e20deb 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -816,7 +816,7 @@ class IirFilterData(BaseDataObj):
         return num, den
 
     @staticmethod
-    def from_gain_and_ff(gain, ff=None, target_device_idx=None):
+    def from_gain_and_ff(gain, ff=None, target_device_idx=None, precision=None):
         '''Build an IirFilterData object from a gain value/vector
         and an optional forgetting factor value/vector'''
 
@@ -848,10 +848,10 @@ class IirFilterData(BaseDataObj):
             den[i, 1] = 1
             ord_den[i] = 2
 
-        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
+        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx, precision=precision)
 
     @staticmethod
-    def lpf_from_fc(fc, fs, n_ord=2, target_device_idx=None):
+    def lpf_from_fc(fc, fs, n_ord=2, target_device_idx=None, precision=None):
         '''Build an IirFilterData object from a cut off frequency value/vector
         and a filter order value (must be even)'''
 
@@ -918,10 +918,10 @@ class IirFilterData(BaseDataObj):
             ord_num[i] = len(num_total)
             ord_den[i] = len(den_total)
 
-        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
+        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx, precision=precision)
 
     @staticmethod
-    def lpf_from_fc_and_ampl(fc, ampl, fs, target_device_idx=None):
+    def lpf_from_fc_and_ampl(fc, ampl, fs, target_device_idx=None, precision=None):
         '''Build an IirFilterData object from a cut off frequency value/vector
         and amplification    value/vector'''
 
@@ -970,7 +970,7 @@ class IirFilterData(BaseDataObj):
             ord_num[i] = len(num_total)
             ord_den[i] = len(den_total)
 
-        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
+        return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx, precision=precision)
 
 # -- Additional methods for control library integration - -
 
diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..122f662 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -178,7 +178,7 @@ class Intmat(BaseDataObj):
         else:
             intmat = self.intmat
         recmat = self.pseudo_invert(self.to_xp(intmat), n_modes_to_drop=cut_modes, w_vec=w_vec, interactive=interactive)
-        rec = Recmat(recmat, target_device_idx=self.target_device_idx)
+        rec = Recmat(recmat, target_device_idx=self.target_device_idx, precision=self.precision)
         rec.im_tag = self.norm_factor  # TODO wrong
         return rec
 
@@ -241,7 +241,7 @@ class Intmat(BaseDataObj):
                                             self.dtype, noise_variance=noise_variance,
                                             c_noise=c_noise_mat,
                                             c_inverse=False, verbose=False)
-        rec = Recmat(recmat, target_device_idx=self.target_device_idx)
+        rec = Recmat(recmat, target_device_idx=self.target_device_idx, precision=self.precision)
         return rec
 
     def pseudo_invert(self, matrix, n_modes_to_drop=0, w_vec=None, interactive=False):
diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..1d3082d 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -144,7 +144,8 @@ class AtmoPropagation(BaseProcessingObj):
                     self.pixel_pupil_size,
                     self.pixel_pupil_size,
                     self.pixel_pitch,
-                    target_device_idx=self.target_device_idx
+                    target_device_idx=self.target_device_idx,
+                    precision=self.precision
                 )
                 ef.S0 = source.phot_density()
                 self.outputs['out_'+name+'_ef'] = ef
@@ -492,7 +493,7 @@ class AtmoPropagation(BaseProcessingObj):
             for name, source in self.source_dict.items():
                 self.outputs['out_'+name+'_ef'] = []
                 for _ in range(self.nAtmoLayers):
-                    ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx)
+                    ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx, precision=self.precision)
                     ef.S0 = source.phot_density()
                     self.outputs['out_'+name+'_ef'].append(ef)
 
diff --git a/specula/processing_objects/atmo_random_phase.py b/specula/processing_objects/atmo_random_phase.py
index 1caa058..aa4172e 100644
--- a/specula/processing_objects/atmo_random_phase.py
+++ b/specula/processing_objects/atmo_random_phase.py
@@ -119,7 +119,8 @@ class AtmoRandomPhase(BaseProcessingObj):
             layer = Layer(self.pixel_pupil, self.pixel_pupil, self.pixel_pitch, self.layer_height,
                           precision=self.precision, target_device_idx=self.target_device_idx)
             ef = ElectricField(self.pixel_pupil, self.pixel_pupil, self.pixel_pitch,
-                               target_device_idx=self.target_device_idx)
+                               target_device_idx=self.target_device_idx,
+                               precision=self.precision)
             # The electric field output shares the same array as the layer output
             ef.field = layer.field
             if source is not None:
diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..6b39905 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -206,7 +206,7 @@ class CCD(BaseProcessingObj):
         self._cte_mat = cte_mat if cte_mat is not None else self.xp.zeros((size[0], size[1], 2), dtype=self.dtype)
         self._qe = quantum_eff
 
-        self._pixels = Pixels(size[0] // binning, size[1] // binning, target_device_idx=target_device_idx)
+        self._pixels = Pixels(size[0] // binning, size[1] // binning, target_device_idx=target_device_idx, precision=precision)
         self._integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._output_integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._photon_seed = photon_seed
diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..7ca897c 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -53,7 +53,8 @@ class CurWfsSlopec(Slopec):
             radius=diameter/2,
             cx=cx, cy=cy,
             framesize=ccd_size,
-            target_device_idx=target_device_idx
+            target_device_idx=target_device_idx,
+            precision=precision
         )
         self.pupdata.set_slopes_from_intensity()
 
diff --git a/specula/processing_objects/data_buffer.py b/specula/processing_objects/data_buffer.py
index bebaa43..1b712d3 100644
--- a/specula/processing_objects/data_buffer.py
+++ b/specula/processing_objects/data_buffer.py
@@ -32,7 +32,7 @@ class DataBuffer(BaseProcessingObj):
             if input_obj is not None:
                 # Create output name and object
                 output_name = f"{input_name}_buffered"
-                output_obj = BaseValue(target_device_idx=self.target_device_idx)
+                output_obj = BaseValue(target_device_idx=self.target_device_idx, precision=self.precision)
                 self.buffered_outputs[output_name] = output_obj
                 self.outputs[output_name] = output_obj
 
diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..e9264f9 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -35,7 +35,7 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx, precision=self.precision)
 
     @classmethod
     def input_names(cls):
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 2bb117e..ab6cb70 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -102,7 +102,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         self.inputs['in_thr2'] = InputValue(type=BaseValue, optional=True)
         self.inputs['in_output_tag'] = InputValue(type=BaseValue, optional=True)
 
-        self.outputs['out_params'] = BaseValue()
+        self.outputs['out_params'] = BaseValue(target_device_idx=self.target_device_idx, precision=self.precision)
 
     @classmethod
     def input_names(cls):
diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index fc99444..0f5541e 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -121,7 +121,7 @@ class ExtendedSource(BaseProcessingObj):
         self.inputs['psf'] = InputValue(type=BaseValue, optional=True)
 
         # Outputs
-        self.outputs['coeff'] = BaseValue(target_device_idx=self.target_device_idx)
+        self.outputs['coeff'] = BaseValue(target_device_idx=self.target_device_idx, precision=self.precision)
 
         # Compute coefficients
         self.compute()
diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..51cb756 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -57,11 +57,13 @@ class ImCalibrator(BaseProcessingObj):
         self.inputs['in_slopes'] = InputValue(type=Slopes)
         self.inputs['in_commands'] = InputValue(type=BaseValue)
 
-        self.intmat = Intmat(nmodes=nmodes, nslopes=0, target_device_idx=self.target_device_idx)
+        self.intmat = Intmat(nmodes=nmodes, nslopes=0, target_device_idx=self.target_device_idx,
+                             precision=self.precision)
         self.outputs['out_intmat'] = self.intmat
 
         self.single_im = [Intmat(nmodes=1, nslopes=0,
-                                 target_device_idx=self.target_device_idx) for i in range(nmodes)]
+                                 target_device_idx=self.target_device_idx,
+                                 precision=self.precision) for i in range(nmodes)]
         self.outputs['out_single_im'] = self.single_im
 
     @classmethod
diff --git a/specula/processing_objects/integrator.py b/specula/processing_objects/integrator.py
index 52eebbe..04bb2a4 100644
--- a/specula/processing_objects/integrator.py
+++ b/specula/processing_objects/integrator.py
@@ -49,7 +49,8 @@ class Integrator(IirFilter):
                 ff = [val for i, val in enumerate(ff) for _ in range(n_modes[i])]
 
         iir_filter_data = IirFilterData.from_gain_and_ff(int_gain, ff=ff,
-                                               target_device_idx=target_device_idx)
+                                               target_device_idx=target_device_idx,
+                                               precision=precision)
 
         # Initialize IirFilter object
         super().__init__(simul_params, iir_filter_data, delay=delay, integration=integration,
diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..0808d01 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -26,10 +26,12 @@ class LowPassFilter(IirFilter):
             if n_ord is not None:
                 raise ValueError('Only one of amplif_fact and n_ord can be specified')
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
-                                               samp_freq, target_device_idx=target_device_idx)
+                                               samp_freq, target_device_idx=target_device_idx,
+                                               precision=precision)
         else:
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
-                                                        target_device_idx=target_device_idx)
+                                                        target_device_idx=target_device_idx,
+                                                        precision=precision)
 
         # Initialize IirFilter object
         super().__init__(simul_params, iir_filter_data, delay=delay,
diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 3e679e7..47a3533 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -56,7 +56,7 @@ class ModalAnalysis(BaseProcessingObj):
             else:
                 raise ValueError(f'Invalid ifunc type {type_str}')
 
-            ifunc = IFunc(ifunc, mask=mask, nmodes=nmodes, target_device_idx=self.target_device_idx)
+            ifunc = IFunc(ifunc, mask=mask, nmodes=nmodes, target_device_idx=self.target_device_idx, precision=self.precision)
             self.phase2modes = ifunc.inverse()
         elif ifunc is None and ifunc_inv is not None:
             # Use ifunc_inv directly, don't attempt to call inverse() on None
@@ -99,7 +99,7 @@ class ModalAnalysis(BaseProcessingObj):
         self.outputs['rms'] = self.rms
         self.outputs['out_modes_list'] = []
         for _ in range(self._n_inputs):
-            self.outputs['out_modes_list'].append(BaseValue('modes', target_device_idx=self.target_device_idx))
+            self.outputs['out_modes_list'].append(BaseValue('modes', target_device_idx=self.target_device_idx, precision=self.precision))
         self.out_modes_list = self.outputs['out_modes_list']
 
     @classmethod
diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..561bbf0 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -68,10 +68,12 @@ class MultiImCalibrator(BaseProcessingObj):
 
         self.outputs['out_intmat_list'] = []
         for i in range(self.n_inputs):
-            im = Intmat(nmodes=nmodes, nslopes=0, target_device_idx=self.target_device_idx)
+            im = Intmat(nmodes=nmodes, nslopes=0, target_device_idx=self.target_device_idx,
+                        precision=self.precision)
             self.outputs['out_intmat_list'].append(im)
         self.outputs['out_intmat_full'] = Intmat(nmodes=nmodes, nslopes=0,
-                                                 target_device_idx=self.target_device_idx)
+                                                 target_device_idx=self.target_device_idx,
+                                                 precision=self.precision)
 
     def _generate_multi_im_tags(self, pupilstop, source_dict, dm, sensor_dict, slopec_dict):
         """Generate IM tags for multi-input configuration using static method."""
diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index f9593d8..b51e8b5 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -77,9 +77,11 @@ class PhaseScreenCube(BaseProcessingObj):
             ef_output_name = 'out_ef' if name is None else 'out_'+name+'_ef'
 
             layer = Layer(self.pixel_pupil, self.pixel_pupil, self.pixel_pitch, self.layer_height,
-                          target_device_idx=self.target_device_idx)
+                          target_device_idx=self.target_device_idx,
+                          precision=self.precision)
             ef = ElectricField(self.pixel_pupil, self.pixel_pupil, self.pixel_pitch,
-                               target_device_idx=self.target_device_idx)
+                               target_device_idx=self.target_device_idx,
+                               precision=self.precision)
             # The electric field output shares the same array as the layer output
             ef.field = layer.field
             if source is not None:
@@ -124,7 +126,8 @@ class PhaseScreenCube(BaseProcessingObj):
                         np.abs(dt[idx_last_non_positive])*self.phasescreens[idx_first_positive, :, :])
 
         in_ef = ElectricField(self.cur_screen.shape[0], self.cur_screen.shape[1], self.pixel_scale,
-                               target_device_idx=self.target_device_idx)
+                               target_device_idx=self.target_device_idx,
+                               precision=self.precision)
 
         in_ef.phaseInNm = self.cur_screen
 
@@ -133,6 +136,7 @@ class PhaseScreenCube(BaseProcessingObj):
             (self.pixel_pupil,self.pixel_pupil),
             magnification = self.bin_fact,
             target_device_idx=self.target_device_idx,
+            precision=self.precision,
             use_out_ef_cache=False, # we cannot reuse the cache here because the interpolated array
                                     # is computed in prepare_trigger, but is used in trigger_code
         )
diff --git a/specula/processing_objects/power_loss.py b/specula/processing_objects/power_loss.py
index a70a47b..8f21f3c 100644
--- a/specula/processing_objects/power_loss.py
+++ b/specula/processing_objects/power_loss.py
@@ -35,7 +35,7 @@ class PowerLoss(BaseProcessingObj):
         self.receiver_diam = receiver_diam
         self.dx_sat_sq = self.wavelengthInNm*1e-9*prop_distance/(simul_params.pixel_pupil*nd*simul_params.pixel_pitch)
         self.inputs['se_sr'] = InputValue(type=BaseValue)
-        self.power_loss = BaseValue(target_device_idx=self.target_device_idx)
+        self.power_loss = BaseValue(target_device_idx=self.target_device_idx, precision=self.precision)
         self.outputs['out_power_loss'] = self.power_loss
 
     @classmethod
diff --git a/specula/processing_objects/psf.py b/specula/processing_objects/psf.py
index 6408e8a..3add3da 100644
--- a/specula/processing_objects/psf.py
+++ b/specula/processing_objects/psf.py
@@ -164,7 +164,8 @@ class PSF(BaseProcessingObj):
 
         self.out_size = [int(np.around(dim * self.nd/2)*2) for dim in in_ef.size]
         self.ref = Intensity(self.out_size[0], self.out_size[1],
-                             target_device_idx=self.target_device_idx)
+                             target_device_idx=self.target_device_idx,
+                             precision=self.precision)
 
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index 20d12ea..c71c95a 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -121,7 +121,7 @@ class SH(BaseProcessingObj):
         self.wavelength_in_nm = wavelengthInNm
         self.subap_wanted_fov = subap_wanted_fov
         self.subap_on_diameter = subap_on_diameter
-        self._lenslet = Lenslet(self.subap_on_diameter, target_device_idx=target_device_idx)
+        self._lenslet = Lenslet(self.subap_on_diameter, target_device_idx=target_device_idx, precision=precision)
         self._subap_wanted_fov_rad = self.subap_wanted_fov / RAD2ASEC
         self._sensor_pxscale = sensor_pxscale / RAD2ASEC
         self._subap_npx = subap_npx
diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..aa7197b 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -79,7 +79,7 @@ class ShSlopec(Slopec):
         self.window_int_threshold = window_int_threshold
         self.int_pixels_weight = None
 
-        self.accumulated_slopes = Slopes(self.nslopes(), target_device_idx=self.target_device_idx)
+        self.accumulated_slopes = Slopes(self.nslopes(), target_device_idx=self.target_device_idx, precision=self.precision)
         self.set_xy_weights()
         self.outputs['out_subapdata'] = self.subapdata
 
diff --git a/specula/processing_objects/sh_subap_calibrator.py b/specula/processing_objects/sh_subap_calibrator.py
index 0c679f5..28c3014 100644
--- a/specula/processing_objects/sh_subap_calibrator.py
+++ b/specula/processing_objects/sh_subap_calibrator.py
@@ -25,7 +25,7 @@ class ShSubapCalibrator(BaseProcessingObj):
                  precision: int = None
                 ):
         super().__init__(target_device_idx=target_device_idx, precision=precision)
-        self._lenslet = Lenslet(subap_on_diameter, target_device_idx=self.target_device_idx)
+        self._lenslet = Lenslet(subap_on_diameter, target_device_idx=self.target_device_idx, precision=self.precision)
         self._energy_th = energy_th
         self._data_dir = data_dir
         if tag_template is None and (output_tag is None or output_tag == 'auto'):
diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3afe269..67e0c91 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -30,7 +30,8 @@ class Slopec(BaseProcessingObj):
         self.sn = sn
         self.slopes = Slopes(
             self.nslopes(), interleave=interleave,
-            target_device_idx=self.target_device_idx
+            target_device_idx=self.target_device_idx,
+            precision=self.precision
         )
         self.flux_per_subaperture_vector = BaseValue(
             value=self.xp.zeros(self.nsubaps(), dtype=self.dtype),
@@ -50,8 +51,8 @@ class Slopec(BaseProcessingObj):
                 raise ValueError('filt_intmat must not be set if "filtmat" is set')
             if filt_recmat:
                 raise ValueError('filt_recmat must not be set if "filtmat" is set')
-            self.filt_intmat = Intmat(filtmat[0], target_device_idx=self.target_device_idx)
-            self.filt_recmat = Recmat(filtmat[1], target_device_idx=self.target_device_idx)
+            self.filt_intmat = Intmat(filtmat[0], target_device_idx=self.target_device_idx, precision=self.precision)
+            self.filt_recmat = Recmat(filtmat[1], target_device_idx=self.target_device_idx, precision=self.precision)
         else:
             if bool(filt_intmat) != bool(filt_recmat):
                 raise ValueError(
@@ -108,7 +109,8 @@ class Slopec(BaseProcessingObj):
             self.int_pixels = Pixels(
                 current_pixels.shape[0],
                 current_pixels.shape[1],
-                target_device_idx=self.target_device_idx
+                target_device_idx=self.target_device_idx,
+                precision=self.precision
             )
             self.int_pixels.pixels = self.xp.zeros_like(current_pixels)
 
diff --git a/specula/processing_objects/sn_calibrator.py b/specula/processing_objects/sn_calibrator.py
index 0d1b574..90e9c49 100644
--- a/specula/processing_objects/sn_calibrator.py
+++ b/specula/processing_objects/sn_calibrator.py
@@ -50,7 +50,7 @@ class SnCalibrator(BaseProcessingObj):
 
     def trigger_code(self):
         if self.slopes is None:
-            self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx)
+            self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx, precision=self.precision)
         else:
             self.slopes.slopes += self.local_inputs['in_slopes'].slopes.copy()
         self._n_iter += 1
diff --git a/specula/processing_objects/spot_monitor.py b/specula/processing_objects/spot_monitor.py
index cb7d65c..0dc8aaa 100644
--- a/specula/processing_objects/spot_monitor.py
+++ b/specula/processing_objects/spot_monitor.py
@@ -86,9 +86,9 @@ class SpotMonitor(BaseProcessingObj):
         np_sub = self.subapdata.np_sub
 
         # Outputs
-        self.sum_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx)
-        self.model_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx)
-        self.residual_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx)
+        self.sum_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx, precision=self.precision)
+        self.model_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx, precision=self.precision)
+        self.residual_pixels = Pixels(np_sub, np_sub, target_device_idx=self.target_device_idx, precision=self.precision)
 
         # parameters: [amplitude, x0, y0, gamma, alpha, sky, fwhm, chi2, success]
         self.params = BaseValue(value=self.xp.zeros(9, dtype=self.dtype),
diff --git a/specula/processing_objects/sprint_pyr.py b/specula/processing_objects/sprint_pyr.py
index e1efef0..4ae37ea 100644
--- a/specula/processing_objects/sprint_pyr.py
+++ b/specula/processing_objects/sprint_pyr.py
@@ -150,7 +150,8 @@ class SprintPyr(BaseSprintEstimator):
             precision=self.precision
         )
         self.internal_command = BaseValue(self.xp.zeros(self.dm.nmodes, dtype=self.dtype),
-                                          target_device_idx=self.target_device_idx)
+                                          target_device_idx=self.target_device_idx,
+                                          precision=self.precision)
         self.internal_dm.inputs['in_command'].set(self.internal_command)
         self.internal_dm.setup()
 
diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..873eedf 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -45,7 +45,8 @@ class ZwfsSlopec(Slopec):
             radius=pup_diam/2,
             cx=cx,cy=cy,
             framesize=[ccd_size,ccd_size],
-            target_device_idx=target_device_idx
+            target_device_idx=target_device_idx,
+            precision=precision
         )
         self.pupdata.set_slopes_from_intensity()
 
diff --git a/specula/template_processing_obj.py b/specula/template_processing_obj.py
index 5a5ba2d..6d63a43 100644
--- a/specula/template_processing_obj.py
+++ b/specula/template_processing_obj.py
@@ -25,7 +25,7 @@ class ProcessingObjName(BaseProcessingObj):
         self.interalParam = self.to_xp(parameter1 * parameter2.recmat)
 
         # BaseValue is just an example, could be any data object 
-        self.result_data1 = BaseValue('some output for this processing object', target_device_idx=target_device_idx)
+        self.result_data1 = BaseValue('some output for this processing object', target_device_idx=target_device_idx, precision=precision)
         # self.result_data2 = BaseValue('some other output for this processing oibject', target_device_idx=target_device_idx)        
 
         # allocate the inputs dictionary
-- 
2.43.0


From 4ddafa3284746f5ea843087bb8233c0b1483abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:54 +0000
Subject: [PATCH 13/42] fix: honour the requested precision in
 pyramid/curvature slopes, concatenation, demodulation

---
 specula/lib/demodulate_signal.py             | 4 ++--
 specula/processing_objects/base_operation.py | 2 +-
 specula/processing_objects/cur_wfs_slopec.py | 4 ++--
 specula/processing_objects/pyr_slopec.py     | 8 ++++----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/specula/lib/demodulate_signal.py b/specula/lib/demodulate_signal.py
index 3de35da..94d3426 100644
--- a/specula/lib/demodulate_signal.py
+++ b/specula/lib/demodulate_signal.py
@@ -112,8 +112,8 @@ def demodulate_signal(signal_data, carrier_freq, sampling_freq,
 
     if cumulated:
         # Cumulated demodulation with progressive windows
-        qa = xp.zeros((nt, nsignals), dtype=xp.float32)
-        pa = xp.zeros((nt, nsignals), dtype=xp.float32)
+        qa = xp.zeros((nt, nsignals), dtype=dtype)
+        pa = xp.zeros((nt, nsignals), dtype=dtype)
 
         for j in range(2, nt):
             # Window from start to j (all signals at once)
diff --git a/specula/processing_objects/base_operation.py b/specula/processing_objects/base_operation.py
index 884f881..fe5d50c 100644
--- a/specula/processing_objects/base_operation.py
+++ b/specula/processing_objects/base_operation.py
@@ -131,7 +131,7 @@ class BaseOperation(BaseProcessingObj):
         elif not self.constant_min is None:
             self.out_value.value = self.constant_min
         elif self.concat:
-            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value))
+            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value), dtype=self.dtype)
         else:
             self.out_value.value = self.xp.empty_like(value1.value)
 
diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7ca897c..204716a 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -112,8 +112,8 @@ class CurWfsSlopec(Slopec):
 
     def trigger_code(self):
         # Extract valid pixels according to PupData
-        i1 = self.flat_p1[self.pup_idx].astype(self.xp.float32)
-        i2 = self.flat_p2[self.pup_idx].astype(self.xp.float32)
+        i1 = self.flat_p1[self.pup_idx].astype(self.dtype)
+        i2 = self.flat_p2[self.pup_idx].astype(self.dtype)
 
         # Compute Curvature Signal: S = (I1 - I2) / (I1 + I2)
         sum_i = i1 + i2
diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..19de973 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -101,10 +101,10 @@ class PyrSlopec(Slopec):
         self.flat_pixels -= self.threshold
 
         clamp_generic_less(0,0,self.flat_pixels, xp=self.xp)
-        A = self.flat_pixels[self.pup_idx0].astype(self.xp.float32)
-        B = self.flat_pixels[self.pup_idx1].astype(self.xp.float32)
-        C = self.flat_pixels[self.pup_idx2].astype(self.xp.float32)
-        D = self.flat_pixels[self.pup_idx3].astype(self.xp.float32)
+        A = self.flat_pixels[self.pup_idx0].astype(self.dtype)
+        B = self.flat_pixels[self.pup_idx1].astype(self.dtype)
+        C = self.flat_pixels[self.pup_idx2].astype(self.dtype)
+        D = self.flat_pixels[self.pup_idx3].astype(self.dtype)
 
         # Compute flux per subaperture (sum of all 4 pupils)
         flux_per_subap = A + B + C + D
-- 
2.43.0


From 6e3f9c1828bf1e699e67a13e7ef484c381602aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:14 +0000
Subject: [PATCH 14/42] fix: to_xp(force_copy=True) keeps the type of the array

---
 specula/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/__init__.py b/specula/__init__.py
index 3c54495..07efe3e 100644
--- a/specula/__init__.py
+++ b/specula/__init__.py
@@ -142,10 +142,10 @@ def to_xp(xp, v, dtype=None, force_copy=False):
             retval = v
         else:
             retval = np.array(v)
-    if dtype is None and not force_copy:
+    if dtype is None:
         return retval
     else:
-        return retval.astype(dtype, copy=force_copy)
+        return retval.astype(dtype, copy=False)
 
 
 class DummyDecoratorAndContextManager():
-- 
2.43.0


From b5f21dc4438879753f6a0785fe0cc796d1f7e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 15/42] fix: declared inputs and outputs match the registered
 ones (DistributedSH, ImShSynimGenerator, MultiImCalibrator)

---
 specula/base_processing_obj.py                      | 4 +++-
 specula/processing_objects/distributed_sh.py        | 9 ++++++---
 specula/processing_objects/im_sh_synim_generator.py | 2 +-
 specula/processing_objects/multi_im_calibrator.py   | 2 +-
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..1f9139d 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -302,7 +302,7 @@ class BaseProcessingObj(BaseTimeObj):
             if not isinstance(self.inputs[k], (InputValue, InputList)):
                 raise TypeError(f"Input {k} must be an InputValue or an InputList")
             if self.inputs[k].output_ref_type is not v[0]:
-                raise TypeError(f"Input {k} must be of type {v[0]}, but got {self.inputs[k].type}")
+                raise TypeError(f"Input {k} must be of type {v[0]}, but got {self.inputs[k].output_ref_type}")
 
         for k in self.inputs:
             if not k in input_dict:
@@ -316,6 +316,8 @@ class BaseProcessingObj(BaseTimeObj):
             return
         output_list = self.output_names()
         for k, v in output_list.items():
+            if k not in self.outputs and getattr(v, 'desc', '').endswith("(optional)"):
+                continue
             if not k in self.outputs:
                 raise ValueError(f"Output {k} declared in output_names but not present in outputs")
             if not isinstance(self.outputs[k], v[0]):
diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 5198e56..4c74828 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -1,6 +1,7 @@
 import copy
 
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
+from specula.base_value import BaseValue
 from specula.data_objects.electric_field import ElectricField
 from specula.data_objects.intensity import Intensity
 from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
@@ -55,15 +56,17 @@ class DistributedSH(SH):
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
     @classmethod
     def input_names(cls):
-        return {'in_ef': InputDesc(ElectricField, 'Input electric field from the telescope pupil')}
+        return {'in_ef': InputDesc(ElectricField, 'Input electric field from the telescope pupil'),
+                'sodium_altitude': InputDesc(BaseValue, 'Sodium layer altitude, used with a laser launch telescope (optional)'),
+                'sodium_intensity': InputDesc(BaseValue, 'Sodium layer intensity, used with a laser launch telescope (optional)')}
 
     @classmethod
     def output_names(cls):
diff --git a/specula/processing_objects/im_sh_synim_generator.py b/specula/processing_objects/im_sh_synim_generator.py
index 9fbd8cd..1726701 100644
--- a/specula/processing_objects/im_sh_synim_generator.py
+++ b/specula/processing_objects/im_sh_synim_generator.py
@@ -194,7 +194,7 @@ class ImShSynimGenerator(BaseProcessingObj):
     @classmethod
     def output_names(cls):
         return {'out_intmat': OutputDesc(Intmat, 'Computed interaction matrix from SynIM geometric model'),
-                'out_recmat': OutputDesc(Recmat, 'Computed reconstruction matrix (optional, if compute_rec=True)')}
+                'out_recmat': OutputDesc(Recmat, 'Computed reconstruction matrix, only if compute_rec=True (optional)')}
 
     def setup(self):
         """Initialize and extract parameters"""
diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 561bbf0..b8d4bb5 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -111,7 +111,7 @@ class MultiImCalibrator(BaseProcessingObj):
 
     @classmethod
     def output_names(cls):
-        return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
+        return {'out_intmat_list': OutputDesc(list, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
     def trigger_code(self):
-- 
2.43.0


From ad02491b230c828272c194c281a020539dd5866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 16/42] fix: Modalrec reads the value of each command vector of
 in_commands_list

---
 specula/processing_objects/modalrec.py               | 2 +-
 specula/processing_objects/modalrec_implicit_polc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index f9e992f..9fae4cc 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -149,7 +149,7 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..6b8daf1 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -81,7 +81,7 @@ class ModalrecImplicitPolc(Modalrec):
     def input_names(cls):
         return {'in_slopes': InputDesc(Slopes, 'Input wavefront slope vector (optional)'),
                 'in_slopes_list': InputDesc(Slopes, 'List of input slope vectors (optional)'),
-                'in_commands': InputDesc(BaseValue, 'Current output command vector for implicit POLC'),
+                'in_commands': InputDesc(BaseValue, 'Current output command vector for implicit POLC (optional, use with in_commands_list)'),
                 'in_commands_list': InputDesc(BaseValue, 'List of current command vectors for implicit POLC (optional)')}
 
     @classmethod
-- 
2.43.0


From ecc074205046adebdb7ec5c460972b102a2fd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:50 +0000
Subject: [PATCH 17/42] fix: dangling attribute references (DoublePhaseDisplay
 data, ImCalibrator verbose, mask dtype)

---
 specula/display/double_phase_display.py     | 2 +-
 specula/lib/mask.py                         | 4 ++--
 specula/processing_objects/im_calibrator.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/display/double_phase_display.py b/specula/display/double_phase_display.py
index 8e0d3df..4f8a662 100644
--- a/specula/display/double_phase_display.py
+++ b/specula/display/double_phase_display.py
@@ -137,6 +137,6 @@ class DoublePhaseDisplay(BaseDisplay):
                 self._create_figure()
 
             # DoublePhaseDisplay handles dual inputs
-            self._update_display()
+            self._update_display(self._get_data())
         except Exception as e:
             self._show_error(f"Double phase display error: {str(e)}")
diff --git a/specula/lib/mask.py b/specula/lib/mask.py
index a292ac5..a4f6550 100644
--- a/specula/lib/mask.py
+++ b/specula/lib/mask.py
@@ -32,7 +32,7 @@ class BaseMask():
         return self._mask
     
     def as_masked_array(self, xp=xp):
-        return xp.ma.array(xp.ones(self._shape, dtype=self.dtype),
+        return xp.ma.array(xp.ones(self._shape, dtype=float),
                            mask=self.mask())
         
     def shape(self):
@@ -363,7 +363,7 @@ class AnnularMask(CircularMask):
             self._maskRadius = min(self._shape) / 2.
         if self._maskCenter is None:
             self._maskCenter = 0.5 * xp.array([self._shape[0],
-                                               self._shape[1]], dtype=self.dtype)
+                                               self._shape[1]], dtype=float)
 
         r = self._maskRadius
         cc = self._maskCenter
diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 51cb756..a081999 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -173,7 +173,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
-- 
2.43.0


From 9565d3d62b1b3e7db8985c13eff727612d3f4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 18/42] fix: ModalAnalysis reads in_ef when only in_ef_list is
 connected

---
 specula/processing_objects/modal_analysis.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 47a3533..0c28a34 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -181,22 +181,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
 
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
-- 
2.43.0


From 2a02a5c6af7d61fffac1ede6de94d733363b98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 19/42] fix: Modalrec with intmat and nmodes uses a missing
 Intmat attribute

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9fae4cc..77cf586 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -48,7 +48,7 @@ class Modalrec(BaseProcessingObj):
                     # Work on a copy, the original may be shared with other objects
                     intmat = copy(intmat)
                     if nmodes:
-                        nmodesintmat = intmat.size[0]
+                        nmodesintmat = intmat.nmodes
                         intmat.reduce_size(nmodesintmat - nmodes)
                     if nSlopesToBeDiscarded:
                         intmat.reduce_slopes(nSlopesToBeDiscarded)
-- 
2.43.0


From d105f1aacd0082623325ea4a7aee0f58d3ff19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 20/42] fix: ImShSynimGenerator MMSE reconstruction uses a
 missing IFunc attribute

---
 specula/processing_objects/im_sh_synim_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_sh_synim_generator.py b/specula/processing_objects/im_sh_synim_generator.py
index 1726701..89752c3 100644
--- a/specula/processing_objects/im_sh_synim_generator.py
+++ b/specula/processing_objects/im_sh_synim_generator.py
@@ -328,7 +328,7 @@ class ImShSynimGenerator(BaseProcessingObj):
             # MMSE reconstruction (same as RecCalibrator)
             diameter = self.pup_diam_m
             modal_base = IFunc(
-                ifunc=self.dm.ifunc_obj.ifunc,
+                ifunc=self.dm.ifunc,
                 mask=self.dm.mask,
                 target_device_idx=self.target_device_idx,
                 precision=self.precision
-- 
2.43.0


From de0ead7693d2c243868aa0178c27adc2d02d732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 21/42] fix: DataSource.size asks the time dictionary for a
 shape

---
 specula/processing_objects/data_source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index e9264f9..093c124 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -1,6 +1,7 @@
 
 import os
 import pickle
+import numpy as np
 from astropy.io import fits
 
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
@@ -80,7 +81,8 @@ class DataSource(BaseProcessingObj):
             print(f'The key: {name} is not stored in the object!')
             return -1
         h = self.storage[name]
-        return h.shape if not dimensions else h.shape[dimensions]
+        shape = np.shape(list(h.values()) if isinstance(h, dict) else h)
+        return shape if not dimensions else shape[dimensions]
 
     def trigger_code(self):
         for k, storage_dict in self.storage.items():
-- 
2.43.0


From 87c756da7cb081fe08678caeb1ac92048cfa3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 22/42] fix: ExtendedSource(FROM_PSF) required the optional psf
 input

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 0f5541e..9c2200f 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -710,7 +710,7 @@ class ExtendedSource(BaseProcessingObj):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-            if np.sum(self.xp.abs(psf.value)) > 0:
+            if psf is not None and np.sum(self.xp.abs(psf.value)) > 0:
                 if self.crop_psf:
                     npsf_input = psf.value.shape[0]
                     npsf_target = self.psf.value.shape[0]
-- 
2.43.0


From a2884bccc90602b5bb45b9588e9fd496d89bc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 23/42] fix: ExtSourcePyramid rebound arrays used by its
 captured stream

---
 specula/processing_objects/ext_source_pyramid.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index d1ebff3..91199b6 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -317,8 +317,14 @@ class ExtSourcePyramid(ModulatedPyramid):
             self.mod_steps = int(self.ext_source_coeff.value.shape[0])
 
         # Set flux factor vector from source (will be updated in trigger if PSF changes)
-        coeff_flux  = self.ext_source_coeff.value[:, 3]
-        self.flux_factor_vector = self.to_xp(coeff_flux)
+        coeff_flux = self.to_xp(self.ext_source_coeff.value[:, 3])
+        if not self.stream_enable:
+            self.flux_factor_vector = coeff_flux
+        elif self.flux_factor_vector is None or self.flux_factor_vector.shape != coeff_flux.shape:
+            self.flux_factor_vector = coeff_flux.copy()
+        else:
+            # Refresh in place, the captured stream refers to this memory
+            self.flux_factor_vector[:] = coeff_flux
 
         # Clean up very small flux values (only if stream disabled)
         # When stream_enable=True, we need constant n_valid for CUDA graph
@@ -365,7 +371,8 @@ class ExtSourcePyramid(ModulatedPyramid):
             # With stream enabled, process all points (no filtering)
             # to keep constant loop iterations for CUDA graph
             print(f'Stream enabled: processing all {self.mod_steps} points')
-            self.valid_idx = self.xp.arange(self.mod_steps)
+            if self.valid_idx is None or self.valid_idx.shape[0] != self.mod_steps:
+                self.valid_idx = self.xp.arange(self.mod_steps)
 
             # Allocate buffers once because with stream enabled valid_idx is constant
             n_chunks_needed = (len(self.valid_idx) + self.max_batch_size - 1) \
@@ -373,7 +380,7 @@ class ExtSourcePyramid(ModulatedPyramid):
 
         self.factor = 1.0 / (self.xp.sum(self.flux_factor_vector) + 1e-20)
 
-        if self._n_chunks != n_chunks_needed:
+        if self._fpsf_buffer is None or self._fpsf_buffer.shape[0] != n_chunks_needed:
             self._n_chunks = n_chunks_needed
             self._fpsf_buffer = self.xp.zeros((self._n_chunks, *self.fpsf.shape),
                                             dtype=self.dtype)
-- 
2.43.0


From 6803d43ee6a479191707ef6e6eb0f342dea9e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 24/42] fix: CIC noise of CCD was drawn from the unseeded
 global generator

---
 specula/processing_objects/ccd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 6b39905..40989ba 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -49,6 +49,7 @@ class CCD(BaseProcessingObj):
                  ADU_gain: float=None,
                  ADU_bias: int=400,
                  emccd_gain: int=None,
+                 cic_seed: int=4,
                  target_device_idx: int=None,
                  precision: int=None):
         """
@@ -112,6 +113,8 @@ class CCD(BaseProcessingObj):
         emccd_gain : int, optional
             Electron-multiplying CCD gain (default is None, which sets a default value based
             on excess noise).
+        cic_seed : int, optional
+            Random seed for clock-induced charge noise (default is 4).
         target_device_idx : int, optional
             Target device index for computation (CPU/GPU). Default is None (uses global setting).
         precision : int, optional
@@ -212,6 +215,7 @@ class CCD(BaseProcessingObj):
         self._photon_seed = photon_seed
         self._readout_seed = readout_seed
         self._excess_seed = excess_seed
+        self._cic_seed = cic_seed
 
         self._excess_delta = excess_delta
         self._ADU_bias = ADU_bias
@@ -220,6 +224,7 @@ class CCD(BaseProcessingObj):
         self._photon_rng = self.xp.random.default_rng(self._photon_seed)
         self._readout_rng = self.xp.random.default_rng(self._readout_seed)
         self._excess_rng = self.xp.random.default_rng(self._excess_seed)
+        self._cic_rng = self.xp.random.default_rng(self._cic_seed)
 
         self.inputs['in_i'] = InputValue(type=Intensity)
         self.outputs['out_pixels'] = self._pixels
@@ -272,7 +277,7 @@ class CCD(BaseProcessingObj):
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
 
         if self._cic_noise:
-            pixels += self.xp.random.binomial(1, self._cic_level, pixels.shape)
+            pixels += self._cic_rng.binomial(1, self._cic_level, pixels.shape)
         
         if self._photon_noise:
             pixels[:] = self._photon_rng.poisson(pixels)
-- 
2.43.0


From aafa0f215408dc25f1cacd09db6a164d026b52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 25/42] fix: pyramid and double roof defects were drawn from
 the unseeded global generator

---
 .../modulated_double_roof.py                  |  7 +++++--
 .../processing_objects/modulated_pyramid.py   | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..ac93c95 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -130,6 +130,9 @@ class ModulatedDoubleRoof(ModulatedPyramid):
         # Apply edge and tip defects to both roofs
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # The same defects for every run
+        rng = self.xp.random.default_rng(1)
+
         for roof_tlt in [roof1_tlt, roof2_tlt]:
             # distance from edge
             dx = self.xp.sqrt(xx ** 2)
@@ -137,13 +140,13 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) |
                                 (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
             if len(idx_edge[0]) > 0:
-                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_edge[0]))
+                roof_tlt[idx_edge] = self.xp.max(roof_tlt) * rng.random(len(idx_edge[0]))
 
             # distance from tip
             d = self.xp.sqrt(xx ** 2 + yy ** 2)
             idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
             if len(idx_tip[0]) > 0:
-                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * self.xp.random.rand(len(idx_tip[0]))
+                roof_tlt[idx_tip] = self.xp.max(roof_tlt) * rng.random(len(idx_tip[0]))
 
             # distance from tip (maya)
             idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..dedd4f5 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -400,25 +400,28 @@ class ModulatedPyramid(BaseProcessingObj):
 
         xx, yy = make_xy(A * 2, A, xp=self.xp)
 
+        # The same defects for every run
+        rng = self.xp.random.default_rng(1)
+
         # distance from edge
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
-            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
+            pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * rng.random(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
-            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
+            pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * rng.random(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 3af19ebc460369418da932b6dd88b7341b1ed1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 26/42] fix: Intmat.restore passed its metadata to the wrong
 constructor parameters

---
 specula/data_objects/intmat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 122f662..a68212f 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -170,7 +170,9 @@ class Intmat(BaseDataObj):
                 slope_rms = hdul[3].data.copy()
             else:
                 slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms,
+                      pupdata_tag=pupdata_tag, subapdata_tag=subapdata_tag,
+                      norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From 7339018f15c530d904072421fd7696f8d561af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 27/42] fix: M2C.save() did not keep norm_factor

---
 specula/data_objects/m2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/m2c.py b/specula/data_objects/m2c.py
index 9856c57..093f485 100644
--- a/specula/data_objects/m2c.py
+++ b/specula/data_objects/m2c.py
@@ -59,6 +59,8 @@ class M2C(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.norm_factor is not None:
+            hdr['NORMFACT'] = self.norm_factor
         return hdr
 
     def save(self, filename, overwrite:bool=False):
@@ -79,5 +81,6 @@ class M2C(BaseDataObj):
             version = hdr.get('VERSION')
             if version != 1:
                 raise ValueError(f"Unknown version {version} in file {filename}")
+            norm_factor = hdr.get('NORMFACT')
             m2c = hdul[1].data
-        return M2C(m2c=m2c, target_device_idx=target_device_idx)
+        return M2C(m2c=m2c, norm_factor=norm_factor, target_device_idx=target_device_idx)
-- 
2.43.0


From c834570847a4c91935b963f7420a378ff2ff3367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 28/42] fix: IFunc.save() did not keep type_str

---
 specula/data_objects/ifunc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/ifunc.py b/specula/data_objects/ifunc.py
index 0923b7a..28914f9 100644
--- a/specula/data_objects/ifunc.py
+++ b/specula/data_objects/ifunc.py
@@ -176,6 +176,8 @@ class IFunc(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.type_str is not None:
+            hdr['TYPE_STR'] = self.type_str
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -190,6 +192,7 @@ class IFunc(BaseDataObj):
     @staticmethod
     def restore(filename, target_device_idx=None, exten=1):
         with fits.open(filename) as hdul:
+            type_str = hdul[0].header.get('TYPE_STR')
             ifunc = hdul[exten].data.T
             mask = hdul[exten+1].data
-        return IFunc(ifunc, mask=mask, target_device_idx=target_device_idx)
+        return IFunc(ifunc, type_str=type_str, mask=mask, target_device_idx=target_device_idx)
-- 
2.43.0


From 853d3b8e32ca26805c518c764a60629ec999e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 29/42] fix: Pupilstop.save() did not keep mask_diam and
 obs_diam

---
 specula/data_objects/pupilstop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/pupilstop.py b/specula/data_objects/pupilstop.py
index 3ea9ff2..1ce0d18 100644
--- a/specula/data_objects/pupilstop.py
+++ b/specula/data_objects/pupilstop.py
@@ -82,6 +82,10 @@ class Pupilstop(Layer):
         hdr['SHIFTY'] = float(self.shiftXYinPixel[1])
         hdr['ROTATION'] = self.rotInDeg
         hdr['MAGNIFIC'] = self.magnification
+        if self.mask_diam is not None:
+            hdr['MASKDIAM'] = self.mask_diam
+        if self.obs_diam is not None:
+            hdr['OBSDIAM'] = self.obs_diam
         return hdr
 
     def save(self, filename, overwrite=True):
@@ -104,8 +108,11 @@ class Pupilstop(Layer):
         shiftY = float(hdr['SHIFTY'])
         rotInDeg = float(hdr['ROTATION'])
         magnification = float(hdr['MAGNIFIC'])
+        mask_diam = float(hdr.get('MASKDIAM', 1.0))
+        obs_diam = hdr.get('OBSDIAM')
         simul_params = SimulParams(pixel_pupil, pixel_pitch)
-        pupilstop = Pupilstop(simul_params, shiftXYinPixel=(shiftX, shiftY), rotInDeg=rotInDeg, \
+        pupilstop = Pupilstop(simul_params, mask_diam=mask_diam, obs_diam=obs_diam,
+                              shiftXYinPixel=(shiftX, shiftY), rotInDeg=rotInDeg,
                               magnification=magnification, target_device_idx=target_device_idx)
         return pupilstop
 
-- 
2.43.0


From 376d794f2be599933c8c276e2e7f2b5d39b1503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:18 +0000
Subject: [PATCH 30/42] fix: a Source at infinite height could not be saved

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..fe4ad86 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        if np.isfinite(self.height):  # FITS headers cannot hold an infinite value
+            hdr['HEIGHT'] = self.height
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=hdr.get('HEIGHT', float('inf')),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From aef601c635008eb8d7c8f33eafe5d3da8e79111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 31/42] fix: every data object parameter can be loaded with the
 _object suffix (missing calibration directories)

---
 specula/calib_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/calib_manager.py b/specula/calib_manager.py
index 2099592..0cbcb94 100644
--- a/specula/calib_manager.py
+++ b/specula/calib_manager.py
@@ -39,10 +39,12 @@ class CalibManager():
             'recmat': 'rec/',
             'Recmat': 'rec/',
             'intmat': 'im/',
+            'filt_intmat': 'im/',
             'Intmat': 'im/',
             'ImCalibrator': 'im/',
             'MultiImCalibrator': 'im/',
             'projmat': 'rec/',
+            'filt_recmat': 'rec/',
             'RecCalibrator': 'rec/',
             'MultiRecCalibrator': 'rec/',
             'im': 'im/',
@@ -62,17 +64,21 @@ class CalibManager():
             'GaussianConvolutionKernel': 'kernels/',
             'pupilstop': 'pupilstop/',
             'Pupilstop': 'pupilstop/',
+            'pupil_mask': 'pupilstop/',
             'maskef': 'maskef/',
             'ElectricField': 'ef/',
             'Intensity': 'intensity/',
             'LaserLaunchTelescope': 'data/',
+            'laser_launch_tel': 'data/',
             'Lenslet': 'lenslet/',
             'Pixels': 'pixels/',
             'Slopes': 'slopes/',
             'TimeHistory': 'data/',
             'time_hist': 'data/',
             'Source': 'data/',
+            'source': 'data/',
             'SpatioTempArray': 'arrays/',
+            'cube': 'arrays/',
             'SubapData': 'subapdata/',
             'vibrations': 'vibrations/',
             'Layer': 'layers/',
-- 
2.43.0


From 2688b2478a4acd587f9c46e1654abec92891c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 32/42] fix: DataBuffer assigned to another process caused a
 KeyError

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..1668a23 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -331,7 +331,7 @@ class Simul():
                     params[key]['inputs'][output.input_name] = single_output_name
                 del params[key]['inputs']['input_list']
 
-            if pars['class'] == 'DataBuffer':
+            if pars['class'] == 'DataBuffer' and key in self.objs:
                 self.objs[key].setOutputs()
 
     def build_objects(self, params):
-- 
2.43.0


From cb4af48e2054fc44a1879abc6000b1a713d1f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 33/42] fix: transferDataTo lost data when a device copy failed
 and reallocated all later attributes

When the in-place device-to-device copy raised (for example because the
shape changed) the new array was bound to a local name only and the
destination kept the old data. A reallocation needed by one attribute was
also applied to all the following ones.
---
 specula/base_data_obj.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..4b5c052 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -55,12 +55,14 @@ class BaseDataObj(BaseTimeObj):
             dest_attr = getattr(destobj, attr)
             dest_type = type(dest_attr)
 
+            # Each attribute is reallocated only if it needs to
+            reallocate = force_reallocation
             if dest_type not in array_types:
                 print(f'Warning: destination attribute is not a cupy/numpy array, forcing reallocation ({destobj}.{attr})')
-                force_reallocation = True
+                reallocate = True
 
             # Destination array had the correct type: perform in-place data copy
-            if not force_reallocation:
+            if not reallocate:
                 # Detect whether the array types are correct for all four cases:
                 # Device to CPU, CPU to device, device-to-device, and CPU-CPU. Also check whether
                 # the target_device_idx is set correctly for the destination object.
@@ -77,7 +79,8 @@ class BaseDataObj(BaseTimeObj):
                         try:
                             dest_attr[:] = self_attr
                         except:
-                            dest_attr = self_attr
+                            # e.g. different shapes: use a new array
+                            reallocate = True
                 elif DtH:
                     # Do not set blocking=True for cupy 12.x compatibility.
                     # Blocking is True by default in later versions anyway
@@ -88,10 +91,10 @@ class BaseDataObj(BaseTimeObj):
                     dest_attr[:] = self_attr
                 else:
                     print(f'Warning: mismatch between target_device_idx and array allocation, forcing reallocation ({destobj}.{attr})')
-                    force_reallocation = True
+                    reallocate = True
 
             # Otherwise, reallocate
-            if force_reallocation:
+            if reallocate:
                 DtD = cp is not None and (self_type == cp.ndarray) and destobj.target_device_idx >= 0
                 DtH = cp is not None and (self_type == cp.ndarray) and destobj.target_device_idx == -1
                 HtD = (self_type == np.ndarray) and destobj.target_device_idx >= 0
-- 
2.43.0


From bca1838f5868cf350db669181a10d65eed3fa25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 34/42] fix: DataStore saves integer time stamps in pickle
 files too (floats cannot hold nanoseconds)

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..72fb976 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,7 +123,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From 1031c7143915ab20460d23e8cca7023ed4d0527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 35/42] fix: DataStore saves the last chunk of a split run even
 when it is shorter than split_size

---
 specula/processing_objects/data_store.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 72fb976..030957c 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -251,6 +251,8 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        pending = len(self.storage) > 0
+        n_iter = self.iter_counter
         self.trigger_code()
 
         if self.split_size == 0:
@@ -259,6 +261,12 @@ class DataStore(BaseProcessingObj):
             else:
                 os.makedirs(self.tn_dir_orig,exist_ok=True)
             self.save()
+        elif pending and len(self.storage) > 0:
+            # Last chunk, shorter than split_size
+            self.create_TN_folder(
+                suffix=f'_{n_iter - n_iter % self.split_size + self.first_suffix}'
+            )
+            self.save()
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From 43f90f4599f122cac08e172d17f0bf4998d9b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 36/42] fix: DataStore does not count the last sample twice
 when downsampling

---
 specula/processing_objects/data_store.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 030957c..6427080 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,7 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.input_last_times = {}
         self.init_storage()
 
     @classmethod
@@ -101,9 +102,11 @@ class DataStore(BaseProcessingObj):
 
     def _should_store_input(self, input_name):
         every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)
-        sample_idx = self.input_sample_counters[input_name]
-        self.input_sample_counters[input_name] += 1
-        return sample_idx % every == 0
+        # The additional trigger done by finalize() sees the last sample again
+        if self.input_last_times.get(input_name) != self.current_time:
+            self.input_last_times[input_name] = self.current_time
+            self.input_sample_counters[input_name] += 1
+        return (self.input_sample_counters[input_name] - 1) % every == 0
 
     def _downsampling_for_input(self, input_name):
         return self.downsample_factor_by_input.get(input_name, self.downsample_factor)
-- 
2.43.0


From 78bfdaac10c55386e27272ac322ca3e3ccf041ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:30 +0000
Subject: [PATCH 37/42] fix: DataSource detects duplicated output names

---
 specula/processing_objects/data_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index 093c124..af73c7c 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -47,7 +47,7 @@ class DataSource(BaseProcessingObj):
         return {}
 
     def loadFromFile(self, name):
-        if name in self.items:
+        if name in self.items or name in self.storage:
             raise ValueError(f'Storing already has an object with name {name}')
         if self.data_format=='fits':
             self.load_fits(name)
-- 
2.43.0


From d0407896f536757b3bbe0bd46222b49f33500c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 38/42] fix: multi calibrators joined data_dir twice to the
 saved paths, and MultiRecCalibrator saved before making its directory

---
 specula/processing_objects/multi_im_calibrator.py  | 5 ++---
 specula/processing_objects/multi_rec_calibrator.py | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index b8d4bb5..d9ddbd3 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -147,7 +147,7 @@ class MultiImCalibrator(BaseProcessingObj):
                 if self.count_commands[i][mode] > 0:
                     im.modes[mode] /= self.count_commands[i][mode]
             if self.im_paths[i]:
-                im.save(os.path.join(self.data_dir, self.im_paths[i]), overwrite=self.overwrite)
+                im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
         if self.full_im_path:
@@ -159,8 +159,7 @@ class MultiImCalibrator(BaseProcessingObj):
             self.outputs['out_intmat_full'].intmat = full_im
             self.outputs['out_intmat_full'].generation_time = self.current_time
             if self.full_im_path:
-                self.outputs['out_intmat_full'].save(
-                    os.path.join(self.data_dir, self.full_im_path), overwrite=self.overwrite)
+                self.outputs['out_intmat_full'].save(self.full_im_path, overwrite=self.overwrite)
 
     def setup(self):
         super().setup()
diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..487d27e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,19 +73,19 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
-                rec.save(os.path.join(self._data_dir, self.rec_path(i)), overwrite=self._overwrite)
+                rec.save(self.rec_path(i), overwrite=self._overwrite)
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-            fullrec.save(os.path.join(self._data_dir, full_rec_path), overwrite=self._overwrite)
+            fullrec.save(full_rec_path, overwrite=self._overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From 73b6a0d7787d3bfc2dddd537987c91fbbc35362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 39/42] fix: DynamicDarkCalibrator averaged with the wrong
 divisor after a trigger or nframes change during an acquisition

---
 specula/processing_objects/dynamic_dark_calibrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index e780138..9a36637 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.ordered_frames = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -168,7 +169,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.ordered_frames).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
@@ -178,7 +179,11 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         # Check if new trigger or nframes value is received at this time step
         input_trigger = self.local_inputs['in_trigger']
         if input_trigger is not None and input_trigger.generation_time == self.current_time:
+            # Any acquisition in progress is dropped. Changes to nframes
+            # will be used starting from the next trigger.
             self.counter = self.nframes
+            self.ordered_frames = self.nframes
+            self.integrated_pixels *= 0
 
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
-- 
2.43.0


From df3597536524edbdadc0ad4e53a0304d890b40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 40/42] fix: DynamicPyrPupdataCalibrator crashed in
 post_trigger when dt was not set

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index ab6cb70..fa3ace1 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -164,7 +164,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From a19c3aeff0079590048908ff8a93e49be18f7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 41/42] fix: DynamicPyrPupdataCalibrator ignored its
 in_output_tag input

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index fa3ace1..4799a23 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -145,6 +145,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {type(e).__name__}: {e}')
 
+        input_output_tag = self.local_inputs['in_output_tag']
+        if input_output_tag is not None and input_output_tag.generation_time == self.current_time:
+            self.filename = str(input_output_tag.value)
+
     def trigger_code(self):
 
         try:
-- 
2.43.0


From ee25735871a34fe6144481737ec377f5632c897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 42/42] fix: ImCalibrator accumulated modes before first_mode
 into the last rows of the matrix

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index a081999..48a1b9c 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -181,7 +181,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0

