From b17fcc946b2cdcd6a321b2ee38b0c8fbe42d8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 01/53] fix: ask menpo labellers for their mapping by its
 actual keyword

mean_pupil_68_error and mean_pupil_49_error passed include_mapping, which
menpo's labellers do not accept, so both always raised TypeError.
---
 menpofit/error/human/face.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..b18c44e 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,7 +80,7 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
+        _, mapping = face_ibug_68_to_face_ibug_68(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
@@ -134,7 +134,7 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
+        _, mapping = face_ibug_49_to_face_ibug_49(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     if shape.n_points == 68:
-- 
2.43.0


From 3ffbfdfcf8eff299cdfd4eb068529dad2e309f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 02/53] fix: check_multi_scale_param on Python >= 3.10

collections.Iterable no longer exists, so any list given for a per-scale
parameter raised AttributeError instead of being checked.
---
 menpofit/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..15a4551 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,5 @@
 import warnings
-import collections
+from collections.abc import Iterable
 from functools import partial
 import numpy as np
 
@@ -151,7 +151,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From f932fd41f0c54bbcecb091411234f3cacc8728a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 03/53] fix: a one-entry patch_shape list serves every scale

check_patch_shape([(17, 17)], 2) returned a list of one patch shape, so
building the second scale failed with IndexError.
---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 15a4551..b015a1f 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -226,7 +226,7 @@ def check_patch_shape(patch_shape, n_scales):
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
         return [patch_shape] * n_scales
     elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
+        return check_patch_shape(patch_shape[0], n_scales)
     elif len(patch_shape) == n_scales:
         l1 = check_patch_shape(patch_shape[0], 1)
         l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-- 
2.43.0


From c786d139462d96ece11f416367bf12935315451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 04/53] fix: accept the documented sampling values

An int step was rejected by check_sampling (only np.int64 was allowed) and a
None entry in a sampling list was rejected because the list was compared with
None instead of the entry. The LK interface now treats any integer as a step.
---
 menpofit/aam/algorithm/lk.py | 2 +-
 menpofit/checks.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..3b4b8fd 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
diff --git a/menpofit/checks.py b/menpofit/checks.py
index b015a1f..086da12 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -344,7 +344,7 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
+        np.alltrue([isinstance(s, (np.ndarray, int, np.integer)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
             return sampling * n_scales
@@ -354,7 +354,7 @@ def check_sampling(sampling, n_scales):
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif isinstance(sampling, (np.ndarray, int, np.integer)) or sampling is None:
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From 0bd182fbc6363604a9e38418ba71048b96a990c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 05/53] fix: ATMs accept a single scale

ATM.__init__ took len(scales) before normalising scales, so a scalar scale
raised TypeError (all other models accept it).
---
 menpofit/atm/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..6bdf41a 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,8 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -821,7 +822,8 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -986,7 +988,8 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        n_scales = len(checks.check_scales(scales))
+        self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
-- 
2.43.0


From 55243dd6057112759163c03464581e6f52358c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 06/53] fix: compute_cumulative_error accepts lists as
 documented

A list of errors with plain float bins raised TypeError (list <= float).
---
 menpofit/error/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..19938ca 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -25,6 +25,7 @@ def compute_cumulative_error(errors, bins):
     ced : `list` of `float`
         The computed CED.
     """
+    errors = np.asarray(errors)
     n_errors = len(errors)
     return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
 
-- 
2.43.0


From 97c2543a23cf4660a0053d599e428c4b944f7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 07/53] fix: evaluate the AUC and failure rate on bins that end
 at max_error

np.arange(min, max + step, step) runs past max_error, by a whole step already
for (0, 0.05, 0.01) because of rounding, so errors above the maximum were
counted as successes and the area covered more than the requested range.
---
 menpofit/error/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 19938ca..e094400 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -72,7 +72,8 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    n_steps = max(int(np.round((max_error - min_error) / step_error)), 1)
+    x_axis = np.linspace(min_error, max_error, n_steps + 1)
     ced = np.array(compute_cumulative_error(errors, x_axis))
     return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
 
-- 
2.43.0


From c9f097747a6431ed8e248e7a80db8b1dfd648340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 08/53] fix: statistics_table with current pandas

The option name 'precision' is ambiguous in recent pandas (OptionError); the
full name has always been display.precision.
---
 menpofit/visualize/textutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..df4c735 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From 91fad1194db99e9f1de9f6bcc5ca6e0179c6b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 09/53] fix: LucasKanadeResult counts its iterations once

MultiScaleParametricIterativeResult already removes the reconstruction of each
scale from n_iters; LucasKanadeResult removed it a second time.
---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From 44d18a81253bdc0fa72816aef02bd1537aea824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 10/53] fix: crop keeps every row and column when a margin is
 zero

---
 menpofit/math/fft_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..c955015 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -66,9 +66,12 @@ def crop(pixels, shape):
     h_corrector = 1 if np.remainder(h - shape[0], 2) != 0 else 0
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
+    h_start = h_margin + h_corrector
+    w_start = w_margin + w_corrector
+
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_start:h_start + shape[0],
+                  w_start:w_start + shape[1]]
 
 
 # TODO: Document me!
-- 
2.43.0


From cd1b07f6af0d1fa1321e7e93a212e7b6b1ad5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 11/53] fix: pad, crop and correlation filters keep the centre
 for every parity of sizes

---
 menpofit/math/correlationfilter.py | 10 +++++-----
 menpofit/math/fft_utils.py         | 26 +++++++++-----------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..ece04c6 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2, fftshift
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
@@ -81,7 +81,7 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -191,7 +191,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -284,7 +284,7 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -406,7 +406,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index c955015..4b64697 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -34,16 +34,13 @@ def pad(pixels, ext_shape, boundary='constant'):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (ext_shape[0] - h) // 2
-    w_margin = (ext_shape[1] - w) // 2
+    # the central element of the pixels, at (h // 2, w // 2), becomes the
+    # central element of the extended pixels
+    h_margin = ext_shape[0] // 2 - h // 2
+    w_margin = ext_shape[1] // 2 - w // 2
 
-    h_margin2 = h_margin
-    if h + 2 * h_margin < ext_shape[0]:
-        h_margin += 1
-
-    w_margin2 = w_margin
-    if w + 2 * w_margin < ext_shape[1]:
-        w_margin += 1
+    h_margin2 = ext_shape[0] - h - h_margin
+    w_margin2 = ext_shape[1] - w - w_margin
 
     pad_width = []
     for _ in pixels.shape[:-2]:
@@ -60,14 +57,9 @@ def crop(pixels, shape):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (h - shape[0]) // 2
-    w_margin = (w - shape[1]) // 2
-
-    h_corrector = 1 if np.remainder(h - shape[0], 2) != 0 else 0
-    w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
-
-    h_start = h_margin + h_corrector
-    w_start = w_margin + w_corrector
+    # the inverse of pad: central elements coincide
+    h_start = h // 2 - shape[0] // 2
+    w_start = w // 2 - shape[1] // 2
 
     return pixels[...,
                   h_start:h_start + shape[0],
-- 
2.43.0


From 3ce17cbdf4185c407221b6f32a1aff2bb381de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 12/53] fix: frequency domain convolution returns the full,
 same and valid convolutions

---
 menpofit/clm/expert/ensemble.py |  5 ++--
 menpofit/math/fft_utils.py      | 52 ++++++++++++++++-----------------
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..1a1a58e 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -122,8 +122,9 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: (`int`, `int`)
         """
-        pad_size = np.floor(1.5 * np.asarray(self.patch_shape) - 1).astype(int)
-        return tuple(pad_size)
+        # half a filter on either side of the patch
+        patch_shape = np.asarray(self.patch_shape)
+        return tuple(patch_shape + 2 * (patch_shape // 2))
 
     @property
     def search_shape(self):
diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 4b64697..352f197 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -66,6 +66,23 @@ def crop(pixels, shape):
                   w_start:w_start + shape[1]]
 
 
+def _select_mode(ext_c, x_shape, f_shape, mode):
+    r"""
+    Selects the part of the extended convolution that corresponds to the mode.
+    """
+    if mode == 'full':
+        start, stop = np.zeros_like(f_shape), x_shape + f_shape - 1
+    elif mode == 'same':
+        return crop(ext_c, x_shape)
+    elif mode == 'valid':
+        start, stop = f_shape - 1, x_shape
+    else:
+        raise ValueError(
+            "mode={}, is not supported. The only supported "
+            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return ext_c[..., start[0]:stop[0], start[1]:stop[1]]
+
+
 # TODO: Document me!
 def ndconvolution(wrapped):
     r"""
@@ -118,7 +135,9 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     """
     if fft_filter:
         # extended shape is filter shape
+        x_shape = np.asarray(x.shape[-2:])
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -130,8 +149,8 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        # half a filter is needed on either side of the image
+        ext_shape = x_shape + 2 * (f_shape // 2)
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -147,16 +166,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
-        return ext_c
-    elif mode is 'same':
-        return crop(ext_c, x_shape)
-    elif mode is 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _select_mode(ext_c, x_shape, f_shape, mode)
 
 
 # TODO: Document me!
@@ -199,9 +209,8 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
 
         # extended shape is fft_ext_filter shape
         x_shape = np.asarray(x.shape[-2:])
-        f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
+        f_shape = ext_shape - x_shape + 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -212,8 +221,8 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        # half a filter is needed on either side of the image
+        ext_shape = x_shape + 2 * (f_shape // 2)
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -229,13 +238,4 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
-        return ext_c
-    elif mode is 'same':
-        return crop(ext_c, x_shape)
-    elif mode is 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _select_mode(ext_c, x_shape, f_shape, mode)
-- 
2.43.0


From 2a5bfd5cd339da8b2aab131fc0fc20fb540ccb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 13/53] fix: incremental correlation filters add the new images
 to the old sums

---
 menpofit/math/correlationfilter.py | 32 ++++++++----------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index ece04c6..c90baad 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -148,15 +148,6 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -182,9 +173,10 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXX += fft_ext_x.conj() * fft_ext_x
         sXY += fft_ext_x.conj() * fft_ext_y
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices, which are
+    # sums over images; the old ones are multiplied by the forgetting factor
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -354,15 +346,6 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -396,9 +379,10 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXX += diag_fft_x.conj().T.dot(diag_fft_x)
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices, which are
+    # sums over images; the old ones are multiplied by the forgetting factor
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From a834ddb0c2fc309ff98fb71ecf4b2847d8898ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 14/53] fix: IRLRegression increments by the matrix inversion
 lemma

---
 menpofit/math/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..2c7d2c7 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -74,8 +74,7 @@ class IRLRegression(object):
 
         # incremental regularized linear regression
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        np.fill_diagonal(U, 1 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From 247dc70971db1ea44aa01eec08dd83dd4de65eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 15/53] fix: IIRLRegression increments the direct solution

---
 menpofit/math/regression.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 2c7d2c7..3f8e1dd 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -115,11 +115,16 @@ class IIRLRegression(IRLRegression):
         If ``True``, a bias term is used.
     alpha2 : `float`, optional
         The regularization parameter of the Hessian.
+    incrementable : `bool`, optional
+        If ``True``, then the regression model will have the ability to get
+        incremented.
     """
-    def __init__(self, alpha=0, bias=False, alpha2=0):
+    def __init__(self, alpha=0, bias=False, alpha2=0, incrementable=False):
         # TODO: Can we model the bias? May need to slice off of prediction?
-        super(IIRLRegression, self).__init__(alpha=alpha, bias=False)
+        super(IIRLRegression, self).__init__(alpha=alpha, bias=False,
+                                             incrementable=incrementable)
         self.alpha2 = alpha2
+        self.J = None
 
     def train(self, X, Y):
         r"""
@@ -134,7 +139,8 @@ class IIRLRegression(IRLRegression):
         """
         # regularized linear regression exchanging the roles of X and Y
         super(IIRLRegression, self).train(Y, X)
-        J = self.W
+        # keep the direct solution, which is what can be incremented
+        J = self.J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
@@ -160,15 +166,17 @@ class IIRLRegression(IRLRegression):
             Model is not incrementable
         """
         # incremental least squares exchanging the roles of X and Y
+        if self.incrementable:
+            self.W = self.J
         super(IIRLRegression, self).increment(Y, X)
-        J = self.W
+        J = self.J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
         H = J.dot(J.T)
         if self.alpha2:
             np.fill_diagonal(H, self.alpha2 + np.diag(H))
-        self.W = np.linalg.solve(H, J)
+        self.W = np.linalg.solve(H, J).T
 
     def predict(self, x):
         r"""
-- 
2.43.0


From fdb5e37b7fdb541e1594001315518d1661998565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 16/53] fix: OptimalLinearRegression when a single component is
 retained

---
 menpofit/math/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 3f8e1dd..63411bd 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from menpo.math import pca
+from menpo.math import pca, pcacov
 
 
 class IRLRegression(object):
@@ -329,7 +329,8 @@ class OptimalLinearRegression(object):
         A = X.T.dot(Y).dot(Y.T).dot(X)
         A_tilde = U.dot(A).dot(U.T)
 
-        V, l2, _ = pca(A_tilde, centre=False)
+        # A_tilde is a symmetric matrix, not a set of samples
+        V, l2 = pcacov(A_tilde)
         H = V.dot(U)
 
         self.R = H.T.dot(np.linalg.pinv(X.dot(H.T)).dot(Y))
-- 
2.43.0


From c05dc97321d39110aabe8916bf0e022b48c40f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 17/53] fix: probability_map of constant responses is uniform
 and keeps its input

---
 menpofit/clm/expert/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..f9cc508 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,14 +22,15 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
     nonzero = total > 0
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
+        # number of elements along the given axes
+        n = np.sum(np.ones_like(x), axis=axes, keepdims=True)
+        x = np.where(nonzero, x / np.where(nonzero, total, 1), 1 / n)
     else:
         x /= total
     return x
-- 
2.43.0


From 2d44383b68ecc511ea26970093be0adfd44ed740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 18/53] fix: active shape model centres its search grid like
 build_grid

---
 menpofit/clm/algorithm/gd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..35bc1a9 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -95,8 +95,8 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         super(ActiveShapeModel, self)._precompute()
 
         # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        self.half_search_shape = (
+            np.asarray(self.expert_ensemble.search_shape) // 2)
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
-- 
2.43.0


From 970dfa76c23265e5fc1c7c34648d86b9695f07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 19/53] fix: n_sample_offsets of an ensemble with an array of
 sample offsets

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 1a1a58e..8da0ef2 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From 894d46030f661eebfeeeb6c5e9ff6eb9b5c9ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 20/53] fix: noise types are compared by value

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..46eda86 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 55f3ca353904e47ac68c9ef47b828874cd8df5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 21/53] fix: uniform scale noise is uniform

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 46eda86..cf25b2a 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From 6bdafe6d919762950e806d18ba511d355479ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 22/53] fix: noisy alignment keeps the caller's
 noise_percentage list

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index cf25b2a..9e41bcd 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From bfdeefcee6157c18d9b5bf3b1a4ccaf333eaddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 23/53] fix: alignment noise is applied in the frame of the
 target it is relative to

---
 menpofit/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 9e41bcd..04700c7 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,8 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # the noise is defined about the target, thus applied after the alignment
+    return t.compose_after(s.compose_after(r)).compose_after(similarity)
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From f91d176bb7109c7f432ae50fc8477433cf7a2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 24/53] fix: perturbations generated by an earlier call are not
 returned again

---
 menpofit/fitter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 04700c7..5a45a60 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -772,9 +772,15 @@ def generate_perturbations_from_gt(images, n_perturbations, perturb_func,
     for im in wrap(images):
         gt_s = im.landmarks[gt_group].bounding_box()
 
+        # discard what an earlier call generated on this image
+        bbs = bb_generator(im)
+        for group in list(im.landmarks.group_labels):
+            if group.startswith('__generated_bb_'):
+                del im.landmarks[group]
+
         k = 0
         im_bounds = im.bounds()
-        for bb in bb_generator(im):
+        for bb in bbs:
             for _ in range(n_perturbations):
                 p_s = perturb_func(gt_s, bb).bounding_box()
                 perturb_bbox_group = '__generated_bb_{}'.format(k)
-- 
2.43.0


From f421b632e39d76b1b001a7a35d1480b14fdd3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 25/53] fix: dlib detections are stacked from a list (numpy
 rejects generators)

---
 menpofit/dlib/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..11bcdcc 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,8 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))),
+                      copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From 9206e9e444224405510d4dfac4d6c7b5a22946df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 26/53] fix: dlib training keeps every bounding box at the
 later scales

---
 menpofit/dlib/fitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..0d59943 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -329,7 +329,6 @@ class DlibERT(MultiScaleNonParametricFitter):
             # scale, this is done by using generated_bb_func. If we are at the
             # rest of the scales, then the current bboxes are attached on the
             # scaled_images with key '__ert_current_bbox_{}'.
-            current_bounding_boxes = []
             if j == 0:
                 # At the first scale, the current bboxes are created by calling
                 # generated_bb_func.
@@ -343,9 +342,11 @@ class DlibERT(MultiScaleNonParametricFitter):
                 wrap = partial(
                     print_progress, prefix=msg, end_with_newline=False, verbose=verbose
                 )
-                for ii in wrap(scaled_images):
+                n_bboxes = [len(bboxes) for bboxes in current_bounding_boxes]
+                current_bounding_boxes = []
+                for ii, n in zip(wrap(scaled_images), n_bboxes):
                     c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in range(n):
                         c_key = "__ert_current_bbox_{}".format(k)
                         c_bboxes.append(ii.landmarks[c_key])
                     current_bounding_boxes.append(c_bboxes)
-- 
2.43.0


From f3d83f129893801df93fe8c32a78edded5a04a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 27/53] fix: fractional dlib feature padding is accepted as
 documented

---
 menpofit/dlib/fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 0d59943..9b75cca 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -215,7 +215,9 @@ class DlibERT(MultiScaleNonParametricFitter):
     ):
         check_int = partial(checks.check_multi_scale_param, self.n_scales, (int,))
         check_float = partial(checks.check_multi_scale_param, self.n_scales, (float,))
-        feature_padding = check_int("feature_padding", feature_padding)
+        feature_padding = checks.check_multi_scale_param(
+            self.n_scales, (int, float), "feature_padding", feature_padding
+        )
         n_pixel_pairs = check_int("n_pixel_pairs", n_pixel_pairs)
         distance_prior_weighting = check_float(
             "distance_prior_weighting", distance_prior_weighting
-- 
2.43.0


From 437632b0f8e56bd7e2b0e6804a3b82016cc086da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 28/53] fix: scales that share features use the affine
 transform of those features

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 5a45a60..fd17d57 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -374,8 +374,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From c33a4b22d10aad38d65bfc7faef0dd908b3d859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 29/53] fix: shapes are carried over to a scale with other
 features through the right composition

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index fd17d57..0365ac6 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -492,7 +492,7 @@ class MultiScaleNonParametricFitter(object):
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From f1c9367290e7f26bf0c9d9b2c3564fcb2faf9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 30/53] fix: MAP inference leaves the precomputed Hessian as it
 is

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 3b4b8fd..cf35ffd 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -14,7 +14,7 @@ def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -229,7 +229,7 @@ class LucasKanadeBaseInterface(object):
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From 03b0e175c57e350008ebb3e7105dc4a9af3a1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 31/53] fix: MAP inference compares numbers of parameters by
 value

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index cf35ffd..c279c82 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,7 +8,7 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
@@ -224,7 +224,7 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
-- 
2.43.0


From cc438c633480b0ad0bb87cc51eeafcb72853381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 32/53] fix: alternating MAP inference projects on and
 reconstructs from the appearance basis

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c279c82..f03c8da 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1206,7 +1206,7 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = - self.s2_inv_S * c + self.A_m.T.dot(e_m + Jdp)
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1218,7 +1218,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From 6530705344e78c660fae7463760ff3820997bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 33/53] fix: project-out unified fits weigh both parts of the
 Hessian by the variance ratio

---
 menpofit/unified_aam_clm/algorithm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index f51f469..e4ac5c8 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -152,11 +152,7 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         transform_prior = 1 / self.pdm.model.eigenvalues
         self._j_prior = np.hstack((sim_prior, transform_prior))
 
-        # compute Unified hessian inverse and jacobian pseudo-inverse
-        h = self._h_aam + self._h_clm
-        self._pinv_j_aam = np.linalg.solve(h, self._j_aam.T)
-        self._pinv_j_clm = np.linalg.solve(h, self._j_clm.T)
-        self._inv_h_prior = np.linalg.inv(h + np.diag(self._j_prior))
+        self._h_prior = np.diag(self._j_prior)
 
     def run(self, image, initial_shape, gt_shape=None, max_iters=20,
             return_costs=False, prior=False, a=0.5):
@@ -232,15 +228,19 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         if return_costs:
             costs = [cost_closure(e_aam, e_clm, a)]
 
+        # compute Unified hessian
+        h = a * self._h_aam + (1 - a) * self._h_clm
+
         while k < max_iters and eps > self.eps:
             # compute gauss-newton parameter updates
             if prior:
                 b = (self._j_prior * self.transform.as_vector() -
                      a * self._j_aam.T.dot(e_aam) -
                      (1 - a) * self._j_clm.T.dot(e_clm))
-                dp = -self._inv_h_prior.dot(b)
+                dp = -np.linalg.solve(h + self._h_prior, b)
             else:
-                dp = self._pinv_j_aam.dot(e_aam) + self._pinv_j_clm.dot(e_clm)
+                dp = np.linalg.solve(h, a * self._j_aam.T.dot(e_aam) +
+                                     (1 - a) * self._j_clm.T.dot(e_clm))
 
             # update warp
             target = self.transform.target
-- 
2.43.0


From 02dc212a66889d469d450709f8c6a354ee01645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 34/53] fix: parametric cascades report the reconstructed
 initial shape

---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From 041512ba1527de4ba8a1396b84dc45d2df5b0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 35/53] fix: the target of an alignment similarity follows its
 composition with a vector

---
 menpofit/transform/homogeneous.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..74b3591 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,19 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    def compose_after_from_vector_inplace(self, vector):
+        r"""
+        Specialised inplace composition with the transform that a vector
+        describes, after which the target follows the new state.
+
+        Parameters
+        ----------
+        vector : ``(n_parameters,)`` `ndarray`
+            Vector to update the transform state with.
+        """
+        AlignmentSimilarity.compose_after_from_vector_inplace(self, vector)
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0


From 2add8980c3129ab5e3cdd457d625ab27210cb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 36/53] fix: the ECC residual normalises images with the method
 menpo has

---
 menpofit/lk/residual.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..70e1a11 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return image.normalize_norm()
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From 72d270b50386d4851d2d93d204c1cf72af1fdad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 37/53] fix: gradient residuals compare with the gradient of
 the template in forward algorithms too

---
 menpofit/lk/residual.py | 42 +++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 70e1a11..66ddccb 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -703,11 +703,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -785,14 +785,13 @@ class GradientImages(Residual):
         sd_delta_p : ``(n_params,)`` `ndarray`
             The steepest descent parameter updates.
         """
-        # compute image regularized gradient
-        IWxp_grad = self.gradient(image)
-        IWxp_grad = self._regularise_gradients(IWxp_grad)
+        # compute image and template regularized gradients
+        IWxp_grad = self._regularise_gradients(self.gradient(image))
+        template_grad = self._regularise_gradients(self.gradient(template))
 
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
-        self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+        self._error_img = IWxp_grad.as_vector() - template_grad.as_vector()
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
@@ -872,8 +871,8 @@ class GradientCorrelation(Residual):
         # cos_phi:        ch x pixels
         # sin_phi:        ch x pixels
         phi = np.angle(grad2[1, ...] + 1j * grad2[0, ...])
-        self._cos_phi = np.cos(phi)
-        self._sin_phi = np.sin(phi)
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
 
         # concatenate sin and cos terms so that we can take the second
         # derivatives correctly. sin(phi) = y and cos(phi) = x which is the
@@ -882,8 +881,8 @@ class GradientCorrelation(Residual):
         # sin_phi:         ch  x pixels
         # grad:    (dims x ch) x pixels
         grad.from_vector_inplace(
-            np.concatenate((self._sin_phi[None, ...],
-                            self._cos_phi[None, ...]), axis=0).ravel())
+            np.concatenate((sin_phi[None, ...],
+                            cos_phi[None, ...]), axis=0).ravel())
 
         # compute IGOs gradient
         # second_grad:  dims x dims x ch x pixels
@@ -896,8 +895,8 @@ class GradientCorrelation(Residual):
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-self._sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (self._cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
+        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
@@ -977,10 +976,17 @@ class GradientCorrelation(Residual):
         n_dims = image.n_dims
         n_channels = image.n_channels
 
-        # compute image gradient
+        # compute image and template gradients
         IWxp_grad = self.gradient(image)
         IWxp_grad = IWxp_grad.as_vector().reshape(
             (n_dims, n_channels) + image.shape)
+        template_grad = self.gradient(template)
+        template_grad = template_grad.as_vector().reshape(
+            (n_dims, n_channels) + template.shape)
+        template_phi = np.angle(template_grad[1, ...] +
+                                1j * template_grad[0, ...])
+        cos_phi = np.cos(template_phi)
+        sin_phi = np.sin(template_phi)
 
         # compute IGOs (remember axis 0 is y, axis 1 is x)
         # IWxp_grad:     dims x ch x pixels
@@ -993,8 +999,8 @@ class GradientCorrelation(Residual):
 
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (cos_phi * IWxp_sin_phi -
+                           sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1003,8 +1009,8 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(cos_phi * IWxp_cos_phi +
+                    sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From 33b4b647be8d7c846c806814bc3e411f04c34cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 38/53] fix: parametric updates of linear models move the
 landmarks

---
 menpofit/sdm/algorithm/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 12104b3..2fc2386 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -492,7 +492,9 @@ def update_parametric_estimates(estimated_delta_x, delta_x, gt_x,
             model._from_vector_inplace(cx)
 
             # Update current shape inplace
-            s._from_vector_inplace(model.target.as_vector().copy())
+            # (linear models keep the landmarks in a sparse target)
+            target = getattr(model, 'sparse_target', model.target)
+            s._from_vector_inplace(target.as_vector().copy())
 
             delta_x[j] = gt_x[j] - cx
             j += 1
-- 
2.43.0


From d76abc251452420d25ce2c32e4439333dd8aca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 39/53] fix: spline derivative in the input point sums over the
 centres of each point

---
 menpofit/transform/thinsplatesplines.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..d1385ce 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,15 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
+        # the basis functions (and the affine part) of each point
+        dk_dx = np.zeros((points.shape[0],           # k
+                          self.source.n_points + 3,  # i
+                          self.source.n_dims))       # l
+        dk_dx[:, :-3] = self.kernel.d_dl(points)
 
         affine_derivative = np.array([[0, 0],
                                       [1, 0],
                                       [0, 1]])
-        dk_dx[-3:, :] = affine_derivative[:, None]
+        dk_dx[:, -3:] = affine_derivative
 
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        return np.einsum('ij, kil -> kjl', self.coefficients, dk_dx)
-- 
2.43.0


From 71777d8fb2488440e898e5b1144e84db5a0864c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 40/53] fix: spline derivative in the target uses the inverse
 the warp is built with

---
 menpofit/transform/thinsplatesplines.py | 95 +++++--------------------
 1 file changed, 17 insertions(+), 78 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index d1385ce..2f0f10c 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -31,21 +31,12 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
 
     def d_dl(self, points):
         """
-        Calculates the Jacobian of the TPS warp wrt to the source landmarks
-        assuming that he target is equal to the source. This is a special
-        case of the Jacobian wrt to the source landmarks that is used in AAMs
-        to weight the relative importance of each pixel in the reference
-        frame wrt to each one of the source landmarks.
-
-        dW_dl =      dOmega_dl         *  k(points)
-              = T *     d_L**-1_dl     *  k(points)
-              = T * -L**-1 dL_dl L**-1 *  k(points)
-
-        # per point
-        (c, d) = (d, c+3) (c+3, c+3) (c+3, c+3, c, d) (c+3, c+3) (c+3)
-        (c, d) = (d,            c+3) (c+3, c+3, c, d) (c+3,)
-        (c, d) = (d,               ) (          c, d)
-        (c, d) = (                 ) (          c, d)
+        Calculates the Jacobian of the TPS warp wrt to the target landmarks.
+        It is used in AAMs to weight the relative importance of each pixel in
+        the reference frame wrt to each one of the landmarks.
+
+        W     = k(points) * L**-1 * [T; 0]
+        dW_dl = k(points) * L**-1
 
         Parameters
         ----------
@@ -55,9 +46,8 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
         Returns
         -------
         dW/dl : (n_points, n_params, n_dims) ndarray
-            The Jacobian of the transform wrt to the source landmarks evaluated
-            at the previous points and assuming that the target is equal to
-            the source.
+            The Jacobian of the transform wrt to the target landmarks evaluated
+            at the previous points.
         """
         n_centres = self.n_points
         n_points = points.shape[0]
@@ -72,70 +62,19 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
         # (n_points, n_centres+3)  - 3 is (1, x, y) for affine component
         k = np.hstack([k_points, np.ones([n_points, 1]), points])
 
+        # The inverse that the warp itself is built with: singular values below
+        # the threshold are dropped (see ThinPlateSplines._build_coefficients)
         # (n_centres+3, n_centres+3)
-        try:
-            inv_L = np.linalg.inv(self.l)
-        except np.linalg.LinAlgError:
-            # If two points are coincident, or very close to being so, then the
-            # matrix is rank deficient and thus not-invertible. Therefore,
-            # only take the inverse on the full-rank set of indices.
-            _u, _s, _v = np.linalg.svd(self.l)
-            keep = _s.shape[0] - sum(_s < self.min_singular_val)
-            inv_L = _u[:, :keep].dot(1.0 / _s[:keep, None] * _v[:keep, :])
-
-
-        # Taking the derivative of L for changes in l must yield an x,y change
-        # for each centre.
-        # (n_centres+3, n_centres+3, n_centres, n_dims)
-        dL_dl = np.zeros(self.l.shape + (n_centres, 2))
-
-        # take the derivative of the kernel wrt centres at the centres
-        # SHOULD be (n_centres, n_dims, n_centres, n_dims)
-        # IS        (n_centres,         n_centres, n_dims
-        dK_dl_at_tgt = self.kernel.d_dl(self.source.points)
-
-        # we want to build a tensor where for each slice where
-        # dK_dl[i, j, k, l] is the derivative wrt the l'th dimension of the
-        # i'th centre for L[j, k] -> first axis is just looping over centres
-        # and last looping over dims
-        # (n_centres, n_centres, n_centres, n_dims)
-        dK_dl = np.zeros((n_centres, ) + dK_dl_at_tgt.shape)
-
-        # make a linear iterator over the centres
-        iter = np.arange(n_centres)
-
-        # efficiently build the repeated pattern for dK_dl
-        # note that the repetition over centres happens over axis 0
-        # and the dims axis is the last
-        # so dK_dl[0, ..., 0] corresponds to dK/dx0 in Joan's paper
-        #    dK_dl[3, ..., 1] corresponds to dK_dy3 in Joan's paper
-        dK_dl[iter, iter] = dK_dl_at_tgt[iter]
-        dK_dl[iter, :, iter] = dK_dl_at_tgt[:, iter]
-
-        # prepare memory for the answer
+        _u, _s, _v = np.linalg.svd(self.l)
+        keep = _s.shape[0] - sum(_s < self.min_singular_val)
+        inv_L = _u[:, :keep].dot(1.0 / _s[:keep, None] * _v[:keep, :])
+
+        # The warp is k inv_L [target; 0], which is linear in the target: each
+        # dimension of a landmark only moves the same dimension of the points
         # SHOULD be (n_points, n_dims, n_centres, n_dims)
         # IS        (n_points,       , n_centres, n_dims)
         dW_dl = np.zeros((n_points, n_centres, 2))
-
-        # pretend the target is equal to the source
-        # (n_dims, n_centres+3)
-        pseudo_target = np.hstack([self.source.points.T, np.zeros([2, 3])])
-
-        for i in np.arange(n_centres):
-            # dP_dli (n_centres, n_points, n_dims, n_dims)
-            dP_dli = np.zeros(self.p.shape + (2,))
-            dP_dli[i, 1, 0] = -1
-            dP_dli[i, 2, 1] = -1
-
-            dL_dl[:n_centres, :n_centres, i] = dK_dl[i]
-            dL_dl[:n_centres, n_centres:, i] = dP_dli
-            dL_dl[n_centres:, :n_centres, i] = np.swapaxes(dP_dli, 0, 1)
-
-            omega_x = -inv_L.dot(dL_dl[..., i, 0].dot(inv_L))
-            omega_y = -inv_L.dot(dL_dl[..., i, 1].dot(inv_L))
-            dW_dl[:, i, 0] = k.dot(omega_x).dot(pseudo_target[0])
-            dW_dl[:, i, 1] = k.dot(omega_y).dot(pseudo_target[1])
-
+        dW_dl[...] = k.dot(inv_L)[:, :n_centres, None]
         return dW_dl
 
     def d_dx(self, points):
-- 
2.43.0


From ef46eaa2a84214cee100b6bab348d42b5f9c033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 41/53] fix: shape models keep their own copy of the parameters
 they are given

---
 menpofit/modelinstance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..f7182b1 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -176,7 +176,7 @@ class ModelInstance(Targetable, Vectorizable, DP):
         Updates this `menpofit.modelinstance.ModelInstance` from it's
         vectorized form (in this case, simply the weights on the linear model)
         """
-        self._weights = vector
+        self._weights = np.array(vector)
         self._sync_target_from_state()
 
 
@@ -640,7 +640,7 @@ class OrthoPDM(GlobalPDM):
         self._update_global_weights(self.similarity_weights)
 
     def _update_global_weights(self, global_weights):
-        self.similarity_weights = global_weights
+        self.similarity_weights = np.array(global_weights)
         new_target = self.similarity_model.instance(global_weights)
         self.global_transform.set_target(new_target)
 
-- 
2.43.0


From 8a78ff9782b738a1edd4befe6441db13d22dfedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 42/53] fix: incrementing a global model moves its global
 transform to the new mean

---
 menpofit/modelinstance.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index f7182b1..2a2ffd5 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -365,6 +365,10 @@ class PDM(ModelInstance):
                                              -1, self.n_dims)
         return d_dp.swapaxes(0, 1)
 
+    def _sync_state_from_model(self):
+        # called when the linear model has changed
+        pass
+
     def increment(self, shapes, n_shapes=None, forgetting_factor=1.0,
                   max_n_components=None, verbose=False):
         r"""
@@ -404,6 +408,7 @@ class PDM(ModelInstance):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._sync_state_from_model()
         # Reset the target given the new model
         self.set_target(old_target)
 
@@ -451,6 +456,11 @@ class GlobalPDM(PDM):
         mean = self.model.mean()
         self.global_transform = global_transform_cls(mean, mean)
 
+    def _sync_state_from_model(self):
+        # the global transform starts from the mean of the model
+        mean = self.model.mean()
+        self.global_transform = type(self.global_transform)(mean, mean)
+
     @property
     def n_global_parameters(self):
         r"""
@@ -687,6 +697,7 @@ class OrthoPDM(GlobalPDM):
                              verbose=verbose)
         if max_n_components is not None:
             self.model.trim_components(max_n_components)
+        self._sync_state_from_model()
         # Re-orthonormalize
         self._construct_similarity_model()
         # Reset the target given the new models
-- 
2.43.0


From cc04824833708bc99389ccbd324afb8a7b821ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 43/53] fix: the basis of a linear model driven transform
 follows its models

---
 menpofit/transform/modeldriven.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..0bcefd3 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -543,10 +543,26 @@ class LinearOrthoMDTransform(OrthoPDM, Transform):
     def __init__(self, model, sparse_instance):
         super(LinearOrthoMDTransform, self).__init__(model)
         self._sparse_instance = sparse_instance
-        self.W = np.vstack((self.similarity_model.components,
-                            self.model.components))
-        V = self.W[:, :self.n_dims*self.n_landmarks]
-        self.pinv_V = np.linalg.pinv(V)
+
+    @property
+    def W(self):
+        r"""
+        The basis of the dense shapes: the similarity components followed by the
+        active components of the model.
+
+        :type: ``(n_parameters, n_features)`` `ndarray`
+        """
+        return np.vstack((self.similarity_model.components,
+                          self.model.components))
+
+    @property
+    def pinv_V(self):
+        r"""
+        The pseudoinverse of the sparse part of the basis.
+
+        :type: ``(n_dims * n_landmarks, n_parameters)`` `ndarray`
+        """
+        return np.linalg.pinv(self.W[:, :self.n_dims * self.n_landmarks])
 
     @property
     def n_landmarks(self):
-- 
2.43.0


From e4fa1d606d9de88c8780e576bce18bb5297a2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 44/53] fix: chain rule of the global transform in shape
 derivatives

---
 menpofit/modelinstance.py         | 2 +-
 menpofit/transform/modeldriven.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 2a2ffd5..bc74499 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -583,7 +583,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ijk, idk -> idj', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 0bcefd3..ff03d81 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ijk, idk -> idj', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ijk, idk -> idj', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
-- 
2.43.0


From 07679bd74885f1f3cc1c41fc5912cc8f4c90fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 45/53] fix: chain rule of the warp in compositional updates

---
 menpofit/transform/modeldriven.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index ff03d81..5382b01 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From 741425c8ee6bc322f50d89f23af6acad65f02225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 46/53] fix: warp derivatives are not stale when the points are
 written to

---
 menpofit/transform/modeldriven.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 5382b01..784956a 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -228,9 +228,11 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         if not np.array_equal(self._cached_points, points):
             # recompute dW/dl, the derivative each point wrt
             # the source landmarks
-            self.dW_dl = self.transform.d_dl(points)
+            # (at a copy: the caller may write to its own points later on)
+            cached_points = points.copy()
+            self.dW_dl = self.transform.d_dl(cached_points)
             # cache points
-            self._cached_points = points
+            self._cached_points = cached_points
 
         # dX/dp is simply the Jacobian of the PDM
         dX_dp = self.pdm.d_dp(points)
-- 
2.43.0


From cc60327becf6c0ac4d42485b076144d1c176ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 47/53] fix: supervised descent training keeps every perturbed
 shape at the later scales

---
 menpofit/sdm/fitter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..8ba97b6 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -295,7 +295,6 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             # perturbed bounding boxes. If we are at the rest of the scales,
             # then the current shapes are attached on the scaled_images with
             # key '__sdm_current_shape_{}'.
-            current_shapes = []
             if j == 0:
                 # At the first scale, the current shapes are created by aligning
                 # the reference shape to the perturbed bounding boxes.
@@ -304,6 +303,7 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
                 # Extract perturbations at the very bottom level
+                current_shapes = []
                 for ii in wrap(scaled_images):
                     c_shapes = []
                     for bbox in generated_bb_func(ii):
@@ -318,9 +318,11 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                       'scale.'.format(scale_prefix)
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
-                for ii in wrap(scaled_images):
+                n_shapes = [len(shapes) for shapes in current_shapes]
+                current_shapes = []
+                for ii, n in zip(wrap(scaled_images), n_shapes):
                     c_shapes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in range(n):
                         c_key = '__sdm_current_shape_{}'.format(k)
                         c_shapes.append(ii.landmarks[c_key])
                     current_shapes.append(c_shapes)
@@ -362,8 +364,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # Check if original training image (image_batch) got some current
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
-                    for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
+                    for image, shapes in zip(image_batch, current_shapes):
+                        for k in range(len(shapes)):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             del image.landmarks[c_key]
 
-- 
2.43.0


From 15f1ae41186e31670f9c106584e3b9dd9e554a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:39 +0000
Subject: [PATCH 48/53] fix: cost of the filtered residuals weights each pixel
 by its kernel

---
 menpofit/lk/residual.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 66ddccb..c2354c1 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,9 +296,8 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
-                return x.ravel().T.dot(kx.ravel())
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1))
+                return np.real(x.ravel().T.dot(kx.ravel()))
         return cost_closure(self._error_img, self._kernel)
 
     def __str__(self):
@@ -465,9 +464,8 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
-                return x.ravel().T.dot(kx.ravel())
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1))
+                return np.real(x.ravel().T.dot(kx.ravel()))
         return cost_closure(self._error_img, self._kernel)
 
     def __str__(self):
-- 
2.43.0


From 7a58978c352cf6c96893d2a260640c7d76e19eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 49/53] fix: appearance reconstructions of the third and later
 scales use their own model

---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..5142127 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..3699335 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From 82b6c15474a0aafc49648876795b1dc575e34d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 50/53] fix: random instances draw a weight for every
 appearance component

---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 5142127..cf5bd13 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3699335..f6c12e6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -405,7 +405,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From df5f5c01ed18f0d9e1eab1bb6846cd9f3263ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 51/53] fix: incrementing a template model replaces the
 templates of its scales

---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 6bdf41a..060ed4a 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From ffae5983ae5413233ff881d238e40b41a9687204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 52/53] fix: instances of masked template models use the patch
 shape of their scale

---
 menpofit/atm/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 060ed4a..01899d4 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -402,7 +402,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -425,9 +425,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -577,11 +577,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -1030,7 +1030,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From 23fdba4898f84ab764933b237a0d5d606d15dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 53/53] fix: linear models keep the reference frame of every
 scale

---
 menpofit/aam/base.py | 24 +++++++++++++++---------
 menpofit/atm/base.py | 28 +++++++++++++++++-----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cf5bd13..8dc0791 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -781,6 +781,7 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        self.reference_frames = []
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -807,8 +808,10 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(
+            build_reference_frame(mean_aligned_shape)
+        )
+        dense_shapes = densify_shapes(shapes, self.reference_frames[scale_index], self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -817,7 +820,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -832,7 +835,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -958,6 +961,7 @@ class LinearMaskedAAM(AAM):
         # Check arguments
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedAAM, self).__init__(
             images,
@@ -985,10 +989,12 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        dense_shapes = densify_shapes(shapes, self.reference_frames[scale_index], self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -996,7 +1002,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1011,7 +1017,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 01899d4..0930a6c 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -664,6 +664,7 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        self.reference_frames = []
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -689,8 +690,10 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(
+            build_reference_frame(mean_aligned_shape)
+        )
+        dense_shapes = densify_shapes(shapes, self.reference_frames[scale_index], self.transform)
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -699,7 +702,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -715,14 +718,14 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -827,6 +830,7 @@ class LinearMaskedATM(ATM):
         # Check arguments
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
+        self.reference_frames = []
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -853,10 +857,12 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        dense_shapes = densify_shapes(shapes, self.reference_frames[scale_index], self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -864,7 +870,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -880,14 +886,14 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0

