From 9f695c7db0b0ab1b5eb1f026ff8b5842708e31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:45 +0000
Subject: [PATCH 01/51] fix: threshold_firm keeps large values when only the
 first row holds them

np.any() looked at the indices along the first axis rather than at the
mask, so a value above value_high at index 0 alone was not restored.
---
 pywt/_thresholding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..3fd1d56 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -243,7 +243,7 @@ def threshold_firm(data, value_low, value_high):
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
+    large_vals = magnitude > value_high
+    if np.any(large_vals):
         thresholded[large_vals] = data[large_vals]
     return thresholded
-- 
2.43.0


From 5b1812e1090168546929b40411f4cd458f82d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 02/51] fix: soft and garrote thresholding of zeros with
 value=0 is zero, not nan

---
 pywt/_thresholding.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 3fd1d56..9031cc8 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -16,10 +16,12 @@ __all__ = ['threshold', 'threshold_firm']
 def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
+    # a zero stays zero whatever it is multiplied by (and 0/0 would be nan)
+    divisor = np.where(magnitude == 0, 1, magnitude)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value/magnitude)
+    with np.errstate(over='ignore'):
+        # overflow okay as np.inf values get clipped, so ignore warning.
+        thresholded = (1 - value/divisor)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
@@ -34,10 +36,12 @@ def nn_garrote(data, value, substitute=0):
     """Non-negative Garrote."""
     data = np.asarray(data)
     magnitude = np.absolute(data)
+    # a zero stays zero whatever it is multiplied by (and 0/0 would be nan)
+    divisor = np.where(magnitude == 0, 1, magnitude)
 
-    with np.errstate(divide='ignore'):
-        # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
+    with np.errstate(over='ignore'):
+        # overflow okay as np.inf values get clipped, so ignore warning.
+        thresholded = (1 - (value/divisor)**2)
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
-- 
2.43.0


From 54c8e2832785dded7e885cd5ee88362ed5bf424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:20 +0000
Subject: [PATCH 03/51] fix: threshold_firm returns zero, not nan, where the
 formula is 0/0

---
 pywt/_thresholding.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 9031cc8..14c99d4 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -239,13 +239,18 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         vdiff = value_high - value_low
         thresholded = value_high * (1 - value_low/magnitude) / vdiff
         thresholded.clip(min=0, max=None, out=thresholded)
         thresholded = data * thresholded
 
+    # 0/0 above: at or below value_low the result is zero by definition
+    small_vals = magnitude <= value_low
+    if np.any(small_vals):
+        thresholded[small_vals] = 0
+
     # restore hard-thresholding behavior for values > value_high
     large_vals = magnitude > value_high
     if np.any(large_vals):
-- 
2.43.0


From 64cb2ecab219d067f6dfc9bffcb4108ff9d7f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:20 +0000
Subject: [PATCH 04/51] fix: imra2 and imran do not modify their input

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..c2465c4 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -283,7 +283,7 @@ def imra2(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
-            rec += mra_coeffs[j][n]
+            rec = rec + mra_coeffs[j][n]
     return rec
 
 
@@ -430,5 +430,5 @@ def imran(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
-            rec += v
+            rec = rec + v
     return rec
-- 
2.43.0


From 742a24efe28865cdd115900088d492bb345df561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:28 +0000
Subject: [PATCH 05/51] fix: iswtn does not modify the coefficient dictionaries
 it is given

---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..efb35b8 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # leave out the approximation without modifying the caller's dict
+        details = {k: v for k, v in coeffs[j].items()
+                   if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 12b580e5008729f3bcf80e86e37396c7e2c47fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:48 +0000
Subject: [PATCH 06/51] fix: WaveletPacketND.reconstruct trims odd-sized data
 like Node and Node2D

---
 pywt/_wavelet_packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..bbb9991 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
-- 
2.43.0


From a8f906c706e88a87dc3ccf5e61400c53faab538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:48 +0000
Subject: [PATCH 07/51] fix: pickling a WaveletPacket or WaveletPacket2D keeps
 its axis or axes

---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index bbb9991..ab160fc 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -729,7 +729,8 @@ class WaveletPacket(Node):
 
     def __reduce__(self):
         return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes))
 
     def reconstruct(self, update=True):
         """
@@ -855,7 +856,8 @@ class WaveletPacket2D(Node2D):
 
     def __reduce__(self):
         return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes))
 
     def reconstruct(self, update=True):
         """
-- 
2.43.0


From 9807b29c4a8e012da531dc31b5b22555b270334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:58 +0000
Subject: [PATCH 08/51] fix: wavedecn_shapes picks the same default level as
 wavedecn

With a wavelet per axis the shortest axis was paired with the longest
filter even when they belong to different axes.
---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From f592413515dea716ed907c51d6ab25fbcacdf75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:58 +0000
Subject: [PATCH 09/51] fix: mra2 and mran choose the default level from the
 transformed axes only

---
 pywt/_mra.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index c2465c4..7474a8a 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -12,7 +12,7 @@ from ._multilevel import (
     waverecn,
 )
 from ._swt import iswt, iswt2, iswtn, swt, swt2, swt_max_level, swtn
-from ._utils import _modes_per_axis, _wavelets_per_axis
+from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ["mra", "mra2", "mran", "imra", "imra2", "imran"]
 
@@ -207,7 +207,11 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            try:
+                axes_shapes = [data.shape[ax] for ax in axes]
+            except IndexError:
+                raise AxisError("Axis greater than data dimensions")
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
@@ -350,7 +354,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelets, "axes": axes, "norm": True}
         forward = partial(swtn, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswtn, **kwargs)
-- 
2.43.0


From e0d9b50878cf82b10e4a01bc2bf820720f7bb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:22 +0000
Subject: [PATCH 10/51] fix: mra, mra2 and mran accept any array_like data as
 documented

---
 pywt/_mra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 7474a8a..bb3f57b 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -72,6 +72,7 @@ def mra(data, wavelet, level=None, axis=-1, transform='swt',
         https://doi.org/10.2307/2965551
 
     """
+    data = np.asarray(data)
     if transform == 'swt':
         if mode != 'periodization':
             raise ValueError(
@@ -202,6 +203,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     if transform == 'swt2':
         if mode != 'periodization':
             raise ValueError(
@@ -346,6 +348,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     axes, axes_shapes, ndim_transform = _prep_axes_wavedecn(data.shape, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
 
-- 
2.43.0


From 15c9bac069d00d111a055e9e7ff599649c12772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:39 +0000
Subject: [PATCH 11/51] fix: WaveletPacketND accepts any array_like data when
 axes is not given

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index ab160fc..719636f 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -971,7 +971,7 @@ class WaveletPacketND(NodeND):
 
         # axes determines the number of transform dimensions
         if axes is None:
-            axes = range(data.ndim)
+            axes = range(np.ndim(data))
         elif np.isscalar(axes):
             axes = (axes, )
         axes = tuple(axes)
-- 
2.43.0


From 409828a010c63d825ba639a68fa93b5a1fe9855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 12/51] fix: pad in smooth and antisymmetric modes handles a
 zero right pad and length-1 data

---
 pywt/_dwt.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..b723bff 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,17 +461,20 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            npad_l, npad_r = pad_width
+            l_edge, r_edge = npad_l, vector.size - npad_r - 1
+            # a single sample has no slope: its extension is constant
+            step = min(1, r_edge - l_edge)
             # smooth extension to left
-            left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
-            vector[:pad_width[0]] = \
-                left + np.arange(pad_width[0], 0, -1) * slope_left
+            left = vector[l_edge]
+            slope_left = (left - vector[l_edge + step])
+            vector[:l_edge] = left + np.arange(npad_l, 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
-                right + np.arange(1, pad_width[1] + 1) * slope_right
+            right = vector[r_edge]
+            slope_right = (right - vector[r_edge - step])
+            vector[r_edge + 1:] = \
+                right + np.arange(1, npad_r + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
     elif mode == 'antisymmetric':
@@ -481,7 +484,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From c2d73450b5999b94455575d1cec6f3bbbf695a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 13/51] fix: downcoef rejects length-1 data in [anti]reflect
 mode instead of looping forever

---
 pywt/_extensions/_dwt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..c2f6a2c 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -442,6 +442,8 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
 
         # To mirror multi-level wavelet decomposition behaviour, when detail
         # coefficients are requested, the dec_d variant is only called at the
-- 
2.43.0


From abf8e63a0e64ce19de70b089343597fa355243c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 14/51] fix: dwtn and dwt2 raise AxisError for an axis outside
 the data

The unchecked axis indexed the C shape and stride arrays out of bounds.
---
 pywt/_multidim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..11dcbaf 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 23428a0c96ec3bb84ffdd41b7a07299061b6ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 15/51] fix: upcoef and downcoef reject part='' and part='ad'

---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index b723bff..e1de67f 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From 3f73e3b691d7d5f3e8387263406d5ce0d82f3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 16/51] fix: keep the precision and the imaginary part of
 byte-swapped input

Non-native float32, complex64 and complex128 fell through to the
integer case and were cast to float64, discarding imaginary parts.
---
 pywt/_extensions/_pywt.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..009d919 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1034,7 +1034,8 @@ cpdef np.dtype _check_dtype(data):
     """Check for cA/cD input what (if any) the dtype is."""
     cdef np.dtype dt
     try:
-        dt = data.dtype
+        # the byte order of the input is irrelevant to the precision
+        dt = data.dtype.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
-- 
2.43.0


From 0b350dfb7ef78de8a64c2f5fbdeb2e4bd153a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:29 +0000
Subject: [PATCH 17/51] fix: accept sequences of complex numbers as array_like
 input

---
 pywt/_extensions/_pywt.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 009d919..3def096 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1047,7 +1047,8 @@ cpdef np.dtype _check_dtype(data):
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
     except AttributeError:
-        dt = np.dtype('float64')
+        # e.g. a list: as for integer input, unless it holds complex numbers
+        dt = np.dtype('complex128' if np.iscomplexobj(data) else 'float64')
     return dt
 
 
-- 
2.43.0


From ac0ad611023c6b40daa9062b25148ab39116aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 18/51] fix: accept read-only 1-D arrays in dwt, upcoef and
 downcoef

---
 pywt/_extensions/_dwt.pxd | 2 +-
 pywt/_extensions/_dwt.pyx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywt/_extensions/_dwt.pxd b/pywt/_extensions/_dwt.pxd
index bf5aefd..4e96cf0 100644
--- a/pywt/_extensions/_dwt.pxd
+++ b/pywt/_extensions/_dwt.pxd
@@ -1,5 +1,5 @@
 from ._pywt cimport Wavelet, cdata_t
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take)
diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index c2f6a2c..5770702 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -23,7 +23,7 @@ cpdef dwt_coeff_len(size_t data_len, size_t filter_len, MODE mode):
 
     return common.dwt_buffer_length(data_len, filter_len, mode)
 
-cpdef dwt_single(cdata_t[::1] data, Wavelet wavelet, MODE mode):
+cpdef dwt_single(const cdata_t[::1] data, Wavelet wavelet, MODE mode):
     cdef size_t output_len = dwt_coeff_len(data.size, wavelet.dec_len, mode)
     cdef np.ndarray cA, cD
     cdef int retval_a, retval_d
@@ -336,7 +336,7 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     return output
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take):
     cdef cdata_t[::1] rec
     cdef int i, retval
@@ -429,7 +429,7 @@ cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
     return rec
 
 
-cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
+cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
     cdef cdata_t[::1] coeffs
     cdef int i, retval
     cdef size_t output_len, data_size
-- 
2.43.0


From 6f569c8a0483d74890b7adc52541437e80971f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:16 +0000
Subject: [PATCH 19/51] fix: idwt rejects coefficient arrays that differ in
 dimensionality

---
 pywt/_dwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index e1de67f..7b9b9a1 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -260,6 +260,9 @@ def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
         cD = np.asarray(cD, dtype=dt, order='C')
 
     if cA is not None and cD is not None:
+        if cA.ndim != cD.ndim:
+            raise ValueError("Coefficients arrays must have the same number "
+                             "of dimensions.")
         if cA.dtype != cD.dtype:
             # need to upcast to common type
             if cA.dtype.kind == 'c' or cD.dtype.kind == 'c':
-- 
2.43.0


From 86260d7ca613ca0d1d98d48e317dc8f2dba629e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:13 +0000
Subject: [PATCH 20/51] fix: iswt2 and iswtn keep the wider dtype of coarser
 levels' details

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index efb35b8..53bf276 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [output.dtype, ] + [v.dtype for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 94ecdc69895e3b000f31aabb06c01ab4bc106ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 21/51] fix: assigning a packet node to a tree keeps its
 precision and imaginary part

---
 pywt/_wavelet_packets.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 719636f..eb9fbb1 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -295,13 +295,9 @@ class BaseNode:
                 subnode[path[self.PART_LEN:]] = data
             else:
                 if isinstance(data, BaseNode):
-                    self.data = np.asarray(data.data)
-                else:
-                    self.data = np.asarray(data)
+                    data = data.data
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
-                if self.data.dtype != dtype:
-                    self.data = self.data.astype(dtype)
+                self.data = np.asarray(data, dtype=_check_dtype(data))
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From d44fa9711f5c6fe1d4dcf1870aa68d21545d067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:24 +0000
Subject: [PATCH 22/51] fix: a rejected assignment to a packet tree leaves the
 tree unchanged

---
 pywt/_wavelet_packets.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index eb9fbb1..3a2252d 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -287,6 +287,13 @@ class BaseNode:
                 len(self.path) + len(path) > self.maxlevel * self.PART_LEN
             ):
                 raise IndexError("Path length out of range.")
+            # reject an invalid path or data before creating any node
+            for i in range(0, len(path), self.PART_LEN):
+                self._validate_node_name(path[i:i + self.PART_LEN])
+            if isinstance(data, BaseNode):
+                data = data.data
+            # convert data to nearest supported dtype
+            data = np.asarray(data, dtype=_check_dtype(data))
             if path:
                 subnode = self.get_subnode(path[0:self.PART_LEN], False)
                 if subnode is None:
@@ -294,10 +301,7 @@ class BaseNode:
                     subnode = self.get_subnode(path[0:self.PART_LEN], False)
                 subnode[path[self.PART_LEN:]] = data
             else:
-                if isinstance(data, BaseNode):
-                    data = data.data
-                # convert data to nearest supported dtype
-                self.data = np.asarray(data, dtype=_check_dtype(data))
+                self.data = data
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From eaba2855e126877e04f206ec6c2893a70474f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:50 +0000
Subject: [PATCH 23/51] fix: pickling or copying a wavelet keeps all of its
 properties

---
 pywt/_extensions/_pywt.pyx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 3def096..a7b81a2 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -431,7 +431,14 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        state = (self.orthogonal, self.biorthogonal)
+        if self.number is not None:
+            # builtin wavelet: the name also determines all other properties
+            return (Wavelet, (self.name, ), state)
+        return (Wavelet, (self.name, self.filter_bank), state)
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
@@ -778,7 +785,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        state = (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order)
+        return (ContinuousWavelet, (self.name, self.dt), state)
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.w.lower_bound, self.w.upper_bound,
+         self.w.center_frequency, self.w.bandwidth_frequency,
+         self.w.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From d1862830c0891568e56cb570210d05bbce6355bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:20 +0000
Subject: [PATCH 24/51] fix: ContinuousWavelet accepts any spelling of a
 supported dtype

---
 pywt/_extensions/_pywt.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index a7b81a2..e4a8131 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -700,7 +700,7 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
 
         # builtin wavelet
         self.name = name.lower()
-        self.dt = dtype
+        self.dt = (<object>np.dtype(dtype)).type
         if np.dtype(self.dt) not in [np.float32, np.float64]:
             raise ValueError(
                 "Only np.float32 and np.float64 dtype are supported for "
-- 
2.43.0


From 80cda51c1a725c630d1206181c0d90d4a4d4a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:28 +0000
Subject: [PATCH 25/51] fix: central_frequency folds only negative frequencies
 of an odd-length grid

---
 pywt/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_functions.py b/pywt/_functions.py
index b2826d8..21ece82 100644
--- a/pywt/_functions.py
+++ b/pywt/_functions.py
@@ -153,7 +153,7 @@ def central_frequency(wavelet, precision=8):
     assert domain > 0
 
     index = np.argmax(abs(fft(psi)[1:])) + 2
-    if index > len(psi) / 2:
+    if index - 1 > len(psi) / 2:
         index = len(psi) - index + 2
 
     return 1.0 / (domain / (index - 1))
-- 
2.43.0


From f7487de5ccbbb16186ea1ac39b94199b515c64f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 26/51] fix: parameters in continuous wavelet names may start
 with a decimal point

---
 pywt/_extensions/_pywt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index e4a8131..d503527 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -35,8 +35,8 @@ _attr_deprecation_msg = ('{old} has been renamed to {new} and will '
                          'of pywt.')
 
 # Extract float/int parameters from a wavelet name. Examples:
-#    re.findall(cwt_pattern, 'fbsp1-1.5-1') ->  ['1', 1.5', '1']
-cwt_pattern = re.compile(r'\D+(\d+\.*\d*)+')
+#    re.findall(cwt_pattern, 'fbsp1-1.5-.5') ->  ['1', 1.5', '.5']
+cwt_pattern = re.compile(r'[^\d.]+((?:\d+\.*\d*|\.\d+)+)')
 
 
 # raises exception if the wavelet name is undefined
-- 
2.43.0


From 91bfb0621abd3f6d58c8a1d4661b9ef3156e80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 27/51] fix: cwt does not lose precision for scales of a small
 dtype

---
 pywt/_cwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 0d69095..3230e8b 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -107,6 +107,9 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
         wavelet = DiscreteContinuousWavelet(wavelet)
 
     scales = np.atleast_1d(scales)
+    # small integer and half-precision scales would be processed in half or
+    # single precision
+    scales = scales.astype(np.result_type(scales.dtype, np.float64), copy=False)
     if np.any(scales <= 0):
         raise ValueError("`scales` must only include positive values")
 
-- 
2.43.0


From 8941b55e29cb1c93ead7699bc414bdda8c0a1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 28/51] fix: soft, garrote and firm thresholding accept scalar
 data

---
 pywt/_thresholding.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 14c99d4..4ccdc2e 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -22,8 +22,7 @@ def soft(data, value, substitute=0):
     with np.errstate(over='ignore'):
         # overflow okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - value/divisor)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        thresholded = data * thresholded.clip(min=0, max=None)
 
     if substitute == 0:
         return thresholded
@@ -42,8 +41,7 @@ def nn_garrote(data, value, substitute=0):
     with np.errstate(over='ignore'):
         # overflow okay as np.inf values get clipped, so ignore warning.
         thresholded = (1 - (value/divisor)**2)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        thresholded = data * thresholded.clip(min=0, max=None)
 
     if substitute == 0:
         return thresholded
@@ -243,16 +241,10 @@ def threshold_firm(data, value_low, value_high):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         vdiff = value_high - value_low
         thresholded = value_high * (1 - value_low/magnitude) / vdiff
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        thresholded = data * thresholded.clip(min=0, max=None)
 
     # 0/0 above: at or below value_low the result is zero by definition
-    small_vals = magnitude <= value_low
-    if np.any(small_vals):
-        thresholded[small_vals] = 0
+    thresholded = np.where(magnitude <= value_low, 0, thresholded)
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = magnitude > value_high
-    if np.any(large_vals):
-        thresholded[large_vals] = data[large_vals]
-    return thresholded
+    return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From aeea217e26d35178f7fc14010f01c62fa0f74cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 29/51] fix: thresholding handles the most negative value of a
 signed integer type

---
 pywt/_thresholding.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 4ccdc2e..56ef9bf 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -13,9 +13,17 @@ import numpy as np
 __all__ = ['threshold', 'threshold_firm']
 
 
+def _magnitude(data):
+    magnitude = np.absolute(data)
+    if data.dtype.kind == 'i':
+        # the magnitude of the most negative integer only fits unsigned
+        magnitude = magnitude.astype(f'u{data.dtype.itemsize}')
+    return magnitude
+
+
 def soft(data, value, substitute=0):
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
     # a zero stays zero whatever it is multiplied by (and 0/0 would be nan)
     divisor = np.where(magnitude == 0, 1, magnitude)
 
@@ -34,7 +42,7 @@ def soft(data, value, substitute=0):
 def nn_garrote(data, value, substitute=0):
     """Non-negative Garrote."""
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
     # a zero stays zero whatever it is multiplied by (and 0/0 would be nan)
     divisor = np.where(magnitude == 0, 1, magnitude)
 
@@ -52,7 +60,7 @@ def nn_garrote(data, value, substitute=0):
 
 def hard(data, value, substitute=0):
     data = np.asarray(data)
-    cond = np.less(np.absolute(data), value)
+    cond = np.less(_magnitude(data), value)
     return np.where(cond, substitute, data)
 
 
@@ -236,7 +244,7 @@ def threshold_firm(data, value_low, value_high):
             "value_high must be greater than or equal to value_low.")
 
     data = np.asarray(data)
-    magnitude = np.absolute(data)
+    magnitude = _magnitude(data)
     with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
         vdiff = value_high - value_low
-- 
2.43.0


From 4f910a2be3076663b17f4573394a93e1989e3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 30/51] fix: half-precision and byte-swapped coefficients do
 not promote idwtn to double

---
 pywt/_multidim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 11dcbaf..ae653ad 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -299,7 +300,8 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
-                if L.dtype != H.dtype:
+                # half-precision and byte-swapped arrays are converted anyway
+                if _check_dtype(L) != _check_dtype(H):
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
                         dtype = np.complex128
-- 
2.43.0


From bbe25665c92c00ceef0432a55f23244447b7a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:50 +0000
Subject: [PATCH 31/51] fix: iswtn processes long double coefficients in double
 precision

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 53bf276..f6574ef 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                    if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [output.dtype, ] + [v.dtype for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From e058977be0e47db9d9931443d1b69be1b8d53a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:35 +0000
Subject: [PATCH 32/51] fix: pywt.data loaders return a private copy of the
 cached sample data

The functools.cache'd loaders handed out the same array to every caller, so
modifying the returned sample changed it for the whole process.
---
 pywt/data/_readers.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..1cc28ed 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import importlib.resources
 import os
@@ -7,7 +8,18 @@ import numpy as np
 _DATADIR = importlib.resources.files('pywt.data')
 
 
-@functools.cache
+def _cached(load):
+    """Load the data once, and give every caller a copy of its own."""
+    load = functools.cache(load)
+
+    @functools.wraps(load)
+    def wrapper():
+        return copy.deepcopy(load())
+
+    return wrapper
+
+
+@_cached
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -47,7 +59,7 @@ def ascent():
     return ascent
 
 
-@functools.cache
+@_cached
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -84,7 +96,7 @@ def aero():
     return aero
 
 
-@functools.cache
+@_cached
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -132,7 +144,7 @@ def camera():
     return camera
 
 
-@functools.cache
+@_cached
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -164,7 +176,7 @@ def ecg():
     return ecg
 
 
-@functools.cache
+@_cached
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
-- 
2.43.0


From 850ac3a117577d02588355454433de4a34e3fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:35 +0000
Subject: [PATCH 33/51] fix: demo_signal('list') returns a copy of the list of
 signal names

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..ed2e82d 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,7 +76,7 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return _implemented_signals[:]
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
-- 
2.43.0


From f7d447cb9bc0c3cf7e0316c29494974640e08f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:35 +0000
Subject: [PATCH 34/51] fix: idwtn: reject axes whose number does not match the
 coefficient keys

The call silently returned None.
---
 pywt/_multidim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index ae653ad..1699c55 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -285,6 +285,9 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
     else:
         ndim = len(coeff_shape)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if len(axes) != ndim_transform:
+        raise ValueError("The number of axes must match the length of the "
+                         "coefficient keys.")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 160283c74b746708b973c2f5ec6d7f0d37ce1c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 35/51] fix: waverec, waverec2, waverecn: trim the transformed
 axes only

A mismatch along an axis that is not transformed was silently cut off the
approximation. Also drop a leftover debugging print.
---
 pywt/_multilevel.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..8c85526 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -166,7 +166,9 @@ def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
         if (a is not None) and (d is not None):
             try:
                 if a.shape[axis] == d.shape[axis] + 1:
-                    a = a[tuple(slice(s) for s in d.shape)]
+                    idxs = [slice(None)] * a.ndim
+                    idxs[axis] = slice(d.shape[axis])
+                    a = a[tuple(idxs)]
                 elif a.shape[axis] != d.shape[axis]:
                     raise ValueError("coefficient shape mismatch")
             except IndexError:
@@ -330,9 +332,15 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
         else:
             if not all(s == d_shape for s in d_shapes):
                 raise ValueError("All detail shapes must be the same length.")
-            idxs = tuple(slice(None, -1 if a_len == d_len + 1 else None)
-                         for a_len, d_len in zip(a.shape, d_shape))
-        a = idwt2((a[idxs], d), wavelet, mode, axes)
+            # trim the transformed axes only
+            idxs = [slice(None)] * a.ndim
+            if a.ndim == len(d_shape):
+                for ax in axes:
+                    if not -a.ndim <= ax < a.ndim:
+                        raise AxisError("Axis greater than data dimensions")
+                    if a.shape[ax] == d_shape[ax] + 1:
+                        idxs[ax] = slice(-1)
+        a = idwt2((a[tuple(idxs)], d), wavelet, mode, axes)
 
     return a
 
@@ -442,7 +450,7 @@ def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
     return coeffs_list
 
 
-def _match_coeff_dims(a_coeff, d_coeff_dict):
+def _match_coeff_dims(a_coeff, d_coeff_dict, axes):
     # For each axis, compare the approximation coeff shape to one of the
     # stored detail coeffs and truncate the last element along the axis
     # if necessary.
@@ -452,8 +460,10 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
         return a_coeff
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
-    if np.any((size_diffs < 0) | (size_diffs > 1)):
-        print(size_diffs)
+    untransformed = np.ones(size_diffs.shape, dtype=bool)
+    untransformed[list(axes)] = False
+    if np.any((size_diffs < 0) | (size_diffs > 1) |
+              (untransformed & (size_diffs != 0))):
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
 
@@ -571,7 +581,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         # coefficient returned at the previous level may exceed the size of the
         # stored detail coefficients by 1 on any given axis.
         if idx > 0:
-            a = _match_coeff_dims(a, d)
+            a = _match_coeff_dims(a, d, axes)
         d['a' * ndim_transform] = a
         a = idwtn(d, wavelet, mode, axes)
 
-- 
2.43.0


From 4ec899d402a101d2d83e98c85c6aa89785f712ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 36/51] fix: iswt: reject coefficient arrays of different
 lengths

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f6574ef..f250e10 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -239,6 +239,8 @@ def iswt(coeffs, wavelet, norm=False, axis=-1):
                 dtype = np.float64
             output = np.asarray(output, dtype=dtype)
             cD = np.asarray(cD, dtype=dtype)
+        if cD.shape != output.shape:
+            raise ValueError("All coefficient arrays must have the same shape.")
         for first in range(last_index):  # 0 to last_index - 1
 
             # Getting the indices that we will transform
-- 
2.43.0


From 39db544555065409be7c0ce9e323d4b8bb11b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 37/51] fix: iswtn: reject negative axes out of range

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f250e10..13a837f 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -747,6 +747,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From 4dc337564e63bfcddda7e77b3e25a3b58b181a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 38/51] fix: swtn, swt2: reject a negative level

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 13a837f..86aa305 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -645,6 +645,8 @@ def swtn(data, wavelet, level, start_level=0, axes=None, trim_approx=False,
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     num_axes = len(axes)
+    if level < 0:
+        raise ValueError("Level value must not be negative.")
 
     wavelets = _wavelets_per_axis(wavelet, axes)
     if norm:
-- 
2.43.0


From 0a6f38d9a3bb2382a7bf55fbcd8a1aac8d73ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 39/51] fix: reject axes repeated through a negative alias in
 the n-D transforms

---
 pywt/_multilevel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 8c85526..5fc7d5e 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -230,12 +230,12 @@ def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
     axes = tuple(axes)
     if len(axes) != 2:
         raise ValueError("Expected 2 axes")
-    if len(axes) != len(set(axes)):
-        raise ValueError("The axes passed to wavedec2 must be unique.")
     try:
         axes_sizes = [data.shape[ax] for ax in axes]
     except IndexError:
         raise AxisError("Axis greater than data dimensions")
+    if len(axes) != len({ax % data.ndim for ax in axes}):
+        raise ValueError("The axes passed to wavedec2 must be unique.")
 
     wavelets = _wavelets_per_axis(wavelet, axes)
     dec_lengths = [w.dec_len for w in wavelets]
@@ -355,12 +355,12 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
-        raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
     except IndexError:
         raise AxisError("Axis greater than data dimensions")
+    if len(axes) != len({ax % ndim for ax in axes}):
+        raise ValueError("The axes passed to wavedecn must be unique.")
     ndim_transform = len(axes)
     return axes, axes_shapes, ndim_transform
 
@@ -1203,12 +1203,12 @@ def unravel_coeffs(arr, coeff_slices, coeff_shapes, output_format='wavedecn'):
 
 def _check_fswavedecn_axes(data, axes):
     """Axes checks common to fswavedecn, fswaverecn."""
-    if len(axes) != len(set(axes)):
-        raise AxisError("The axes passed to fswavedecn must be unique.")
     try:
         [data.shape[ax] for ax in axes]
     except IndexError:
         raise AxisError("Axis greater than data dimensions")
+    if len(axes) != len({ax % data.ndim for ax in axes}):
+        raise AxisError("The axes passed to fswavedecn must be unique.")
 
 
 class FswavedecnResult:
-- 
2.43.0


From 9189ecb98b9de121643b9cc20cdee6ebbe6a917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 40/51] fix: FswavedecnResult: validate wavelets and modes

np.all of a generator object is always true, so nothing was checked.
---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 5fc7d5e..225ba31 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1236,11 +1236,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, numbers.Integral) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
-- 
2.43.0


From 219ce58760f96b758f35e3c4b940139108578841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 41/51] fix: FswavedecnResult: accept integer-valued float
 levels in indexing

---
 pywt/_multilevel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 225ba31..ae4c32c 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1338,6 +1338,7 @@ class FswavedecnResult:
         if np.any([lev > maxlev for lev, maxlev in zip(levels, self.levels)]):
             raise ValueError(
                 "Specified indices exceed the number of transform levels.")
+        return levels
 
     def __getitem__(self, levels):
         """Retrieve a coefficient subband.
@@ -1348,7 +1349,7 @@ class FswavedecnResult:
             The number of degrees of decomposition along each transformed
             axis.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         return self._coeffs[sl]
 
@@ -1364,7 +1365,7 @@ class FswavedecnResult:
             The data corresponding to assign. It must match the expected
             shape and dtype of the specified subband.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         current_dtype = self._coeffs[sl].dtype
         if self._coeffs[sl].shape != x.shape:
-- 
2.43.0


From 25f55b7e769d52bb480a1b279fa5fc93b090f9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:08 +0000
Subject: [PATCH 42/51] fix: swt: start_level + level no longer overflows the
 level check

---
 pywt/_extensions/_swt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_swt.pyx b/pywt/_extensions/_swt.pyx
index 26e9e33..7aface1 100644
--- a/pywt/_extensions/_swt.pyx
+++ b/pywt/_extensions/_swt.pyx
@@ -70,7 +70,7 @@ def swt(cdata_t[::1] data, Wavelet wavelet, size_t level, size_t start_level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.size))
 
-    if end_level > common.swt_max_level(data.size):
+    if level > common.swt_max_level(data.size) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.size) - start_level))
@@ -181,7 +181,7 @@ cpdef swt_axis(np.ndarray data, Wavelet wavelet, size_t level,
         raise ValueError("start_level must be less than %d." %
                          common.swt_max_level(data.shape[axis]))
 
-    if end_level > common.swt_max_level(data.shape[axis]):
+    if level > common.swt_max_level(data.shape[axis]) - start_level:
         msg = ("Level value too high (max level for current data size and "
                "start_level is %d)." % (
                 common.swt_max_level(data.shape[axis]) - start_level))
-- 
2.43.0


From 98ac74f0f4b1a155be6e9c524d0893711a2275dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 43/51] fix: iswt2, iswtn: reject details whose shape differs
 from the approximation's

Smaller detail arrays silently gave a partly reconstructed result.
---
 pywt/_swt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 86aa305..def10c8 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -484,7 +484,8 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         else:
             _, (cH, cV, cD) = coeffs[j]
         # We are going to assume cH, cV, and cD are of equal size
-        if (cH.shape != cV.shape) or (cH.shape != cD.shape):
+        if (cH.shape != cV.shape) or (cH.shape != cD.shape) or (
+                cH.shape != output.shape):
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
@@ -785,7 +786,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
 
         # We assume all coefficient arrays are of equal size
         shapes = [v.shape for k, v in details.items()]
-        if len(set(shapes)) != 1:
+        if set(shapes) != {output.shape}:
             raise RuntimeError(
                 "Mismatch in shape of intermediate coefficient arrays")
 
-- 
2.43.0


From ab88f660d141fb170845e279b12ae8e06253606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 44/51] fix: idwt: reject too few coefficients along an axis of
 n-D arrays

1-D coefficients that short raise ValueError, n-D ones gave an empty array.
---
 pywt/_extensions/_dwt.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 5770702..d300408 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        raise ValueError("Invalid coefficient arrays length for specified "
+                         "wavelet. Wavelet and mode must be the same as used "
+                         "for decomposition.")
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
-- 
2.43.0


From fd6e01baa69df4a401fd7a5d28a4651dc0111810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 45/51] fix: no crash when there is no memory for the Haar
 wavelet

---
 pywt/_extensions/c/wavelets.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywt/_extensions/c/wavelets.c b/pywt/_extensions/c/wavelets.c
index a45531e..ad786f5 100644
--- a/pywt/_extensions/c/wavelets.c
+++ b/pywt/_extensions/c/wavelets.c
@@ -57,6 +57,7 @@ DiscreteWavelet* discrete_wavelet(WAVELET_NAME name, unsigned int order)
 
         /* the same as db1 */
         w = discrete_wavelet(DB, 1);
+        if (w == NULL) return NULL;
         w->base.family_name = "Haar";
         w->base.short_name = "haar";
         return w;
-- 
2.43.0


From 9e94095176a4f1a909f113d04db593ca835358d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 46/51] fix: swt along an axis raises when there is no memory
 for the upsampled filter

---
 pywt/_extensions/c/wt.template.c | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..b00e255 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -116,16 +116,18 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _dec_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    if (CAT(TYPE, _dec_a)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          dwt_mode) < 0)
+                        goto cleanup;
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _dec_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      dwt_mode);
+                    if (CAT(TYPE, _dec_d)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          dwt_mode) < 0)
+                        goto cleanup;
                     break;
                 }
                 break;
@@ -134,16 +136,18 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level) < 0)
+                        goto cleanup;
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level) < 0)
+                        goto cleanup;
                     break;
                 }
                 break;
-- 
2.43.0


From 932c9b118f526f5a23acd432886a073a9942a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 47/51] fix: demo_signal: exactly n samples for every n

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index ed2e82d..797da4b 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -81,7 +81,7 @@ def demo_signal(name='Bumps', n=None):
     if n is not None:
         if n < 1 or (n % 1) != 0:
             raise ValueError("n must be an integer >= 1")
-        t = np.arange(1/n, 1 + 1/n, 1/n)
+        t = np.arange(1, n + 1) / n
 
     # The following function types don't allow user-specified `n`.
     n_hard_coded = ['gabor', 'sineoneoverx']
-- 
2.43.0


From 7cbbdb60dfc304234ff98d4564d183ef0fa445e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 48/51] fix: demo_signal: HypChirps raised or had nan for some
 n

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 797da4b..7fa0e66 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -139,7 +139,7 @@ def demo_signal(name='Bumps', n=None):
     elif name == 'hypchirps':  # Hyperbolic Chirps of Mallat's book
         alpha = 15 * n * np.pi / 1024
         beta = 5 * n * np.pi / 1024
-        t = np.arange(1.001, n + .001 + 1) / n
+        t = (np.arange(1, n + 1) + .001) / n
         f1 = np.zeros(n)
         f2 = np.zeros(n)
         f1 = np.sin(alpha / (.8 - t)) * (0.1 < t) * (t < 0.68)
@@ -148,7 +148,7 @@ def demo_signal(name='Bumps', n=None):
         p = m // 4
         envelope = np.ones(m)  # the rinp.sing cutoff function
         tmp = np.arange(1, p + 1)-np.ones(p)
-        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / (p - 1) * np.pi)) / 2
+        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / max(p - 1, 1) * np.pi)) / 2
         envelope[m-p:m] = envelope[:p][::-1]
         env = np.zeros(n)
         env[int(np.ceil(n / 10)) - 1:m + int(np.ceil(n / 10)) - 1] = \
-- 
2.43.0


From d77849e526bc9a49e30835712780e24d38081a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 49/51] fix: demo_signal: Chirps raised for n not a multiple of
 8

---
 pywt/data/_wavelab_signals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 7fa0e66..b480256 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -176,10 +176,11 @@ def demo_signal(name='Bumps', n=None):
         f4 = g[i2] * np.cos(350 * np.pi * j * n / 1024)
         f = f1 + f2 + f3 + f4
         envelope = np.ones(n)  # the rinp.sing cutoff function
-        tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
-        envelope[:n // 8] = (
-            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
-        envelope[7 * n // 8:n] = envelope[:n // 8][::-1]
+        n_8 = n // 8
+        tmp = np.arange(1, n_8 + 1) - np.ones(n_8)
+        envelope[:n_8] = (
+            1 + np.sin(-np.pi / 2 + tmp / max(n_8 - 1, 1) * np.pi)) / 2
+        envelope[n - n_8:n] = envelope[:n_8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
         n = 512
-- 
2.43.0


From cbbf91655678208c7e60ed161cf29ceb655ff478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 50/51] fix: demo_signal: Piece-Regular and Piece-Polynomial
 raised for n a multiple of 5

---
 pywt/data/_wavelab_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index b480256..771f35a 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -226,7 +226,7 @@ def demo_signal(name='Bumps', n=None):
         k = n_2 + 2 * n_12 + 3 * n_20
         f[k:k + n_7] = f5
         diff = n - 5 * n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         # zero-mean
         bias = np.sum(f) / n
         f = bias - f
@@ -248,7 +248,7 @@ def demo_signal(name='Bumps', n=None):
         f[3 * n_5:4 * n_5] = f4
         f[4 * n_5:5 * n_5] = f5[n_5::-1]
         diff = n - 5*n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         f[n_20:n_20 + n_10] = np.ones(n_10) * 10
         f[n - n_10:n + n_20 - n_10] = np.ones(n_20) * 150
         # zero-mean
-- 
2.43.0


From 57d0382fed2cc924bbc65d3d2000a78fe93db923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 51/51] fix: demo_signal: Riemann raised when the square root
 of n rounds up

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 771f35a..c5ea9c0 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -256,7 +256,7 @@ def demo_signal(name='Bumps', n=None):
         f = f - bias
     elif name == 'riemann':
         # Riemann's Non-differentiable Function
-        sqn = int(np.round(np.sqrt(n)))
+        sqn = int(np.sqrt(n))
         idx = np.arange(1, sqn + 1)
         idx *= idx
         f = np.zeros_like(t)
-- 
2.43.0

