From eeba819a5fdbeeb2f539edd7ae3de6f307fd297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/28] fix: wavedec3 returned an extra channel dimension when
 no level was computed

With level=0, or level=None on axes too short for a single level, the
approximation kept the channel dimension added for conv3d.
---
 src/ptwt/conv_transform_3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..12a0a51 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -119,7 +119,8 @@ def wavedec3(
         )
 
     result_lst: list[WaveletDetailDict] = []
-    res_lll = data
+    # drop the channel dim, it is added for the convolution on each level.
+    res_lll = data.squeeze(1)
     for _ in range(level):
         if len(res_lll.shape) == 4:
             res_lll = res_lll.unsqueeze(1)
-- 
2.43.0


From 85cb7169dac2261dcdbee484e562a74cf50f3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/28] fix: MatrixWaverec3 stored the approximation in the
 caller's coefficient dicts

A second reconstruction from the same coefficients then failed with a
ValueError because the detail dicts had eight entries.
---
 src/ptwt/matmul_transform_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..83eeb3b 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -466,8 +466,8 @@ class MatrixWaverec3(object):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            # use a new dict to leave the caller's coefficients untouched.
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
-- 
2.43.0


From e73996700c74eaae166f16a9ca2c05d641ad7dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 03/28] fix: fswaverec2 and fswaverec3 stored the approximation
 in the caller's dicts

---
 src/ptwt/separable_conv_transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..45b3f0f 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,8 +179,9 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
-        approx = _separable_conv_idwtn(level_dict, wavelet)
+        approx_key = "a" * max(map(len, keys))
+        # use a new dict to leave the caller's coefficients untouched.
+        approx = _separable_conv_idwtn({**level_dict, approx_key: approx}, wavelet)
     return approx
 
 
-- 
2.43.0


From 1444785db5cb057d5514a8451318662425aea4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 04/28] fix: Matrix transforms kept matrices of another dtype
 or device

Calling the same MatrixWavedec/Waverec (2, 3) object with inputs of the
same shape but another dtype failed, since the matrices were only rebuilt
if the shape or level changed.
---
 src/ptwt/matmul_transform.py   | 10 ++++++++++
 src/ptwt/matmul_transform_2.py | 10 ++++++++++
 src/ptwt/matmul_transform_3.py | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..d0c2f75 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -254,6 +254,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
 
         self.input_length: Optional[int] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
         self.fwt_matrix_list: list[torch.Tensor] = []
         self.pad_list: list[bool] = []
         self.padded = False
@@ -394,6 +395,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
+        if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.matrix_type = (input_signal.dtype, input_signal.device)
+            re_build = True
+
         if self.level is None:
             wlen = len(self.wavelet)
             self.level = int(np.log2(length / (wlen - 1)))
@@ -548,6 +553,7 @@ class MatrixWaverec(object):
         self.ifwt_matrix_list: list[torch.Tensor] = []
         self.level: Optional[int] = None
         self.input_length: Optional[int] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
         self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -670,6 +676,10 @@ class MatrixWaverec(object):
             self.input_length = input_length
             re_build = True
 
+        if self.matrix_type != (torch_dtype, torch_device):
+            self.matrix_type = (torch_dtype, torch_device)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..c552ae9 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -331,6 +331,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
         self.fwt_matrix_list: list[
             Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
         ] = []
@@ -483,6 +484,10 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
+        if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.matrix_type = (input_signal.dtype, input_signal.device)
+            re_build = True
+
         if self.level is None:
             wlen = len(self.wavelet)
             self.level = int(
@@ -627,6 +632,7 @@ class MatrixWaverec2(object):
         ] = []
         self.level: Optional[int] = None
         self.input_signal_shape: Optional[tuple[int, int]] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
 
         self.padded = False
 
@@ -773,6 +779,10 @@ class MatrixWaverec2(object):
             self.level = level
             re_build = True
 
+        if self.matrix_type != (torch_dtype, torch_device):
+            self.matrix_type = (torch_dtype, torch_device)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 83eeb3b..a62242a 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -123,6 +123,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
         self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -222,6 +223,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
+        if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.matrix_type = (input_signal.dtype, input_signal.device)
+            re_build = True
+
         if self.level is None:
             wlen = len(self.wavelet)
             self.level = int(
@@ -326,6 +331,7 @@ class MatrixWaverec3(object):
         self.orthogonalization = orthogonalization
         self.ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.input_signal_shape: Optional[tuple[int, int, int]] = None
+        self.matrix_type: Optional[tuple[torch.dtype, torch.device]] = None
         self.level: Optional[int] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
@@ -443,6 +449,10 @@ class MatrixWaverec3(object):
             self.level = level
             re_build = True
 
+        if self.matrix_type != (torch_dtype, torch_device):
+            self.matrix_type = (torch_dtype, torch_device)
+            re_build = True
+
         if not self.ifwt_matrix_list or re_build:
             self._construct_synthesis_matrices(
                 device=torch_device,
-- 
2.43.0


From 1a5e559342c3464b7a62262b7be7507e5436c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 05/28] fix: Matrix transforms with level=None reused the level
 of the first call

The level chosen for the first input was kept for later inputs of another
size, and a first input too short for one level made all later calls fail.
---
 src/ptwt/matmul_transform.py   | 12 ++++++++----
 src/ptwt/matmul_transform_2.py | 12 ++++++++----
 src/ptwt/matmul_transform_3.py | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index d0c2f75..6202e57 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -249,6 +249,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # without a given level, each call chooses one based on its input.
+        self.choose_level = level is None
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
@@ -399,11 +401,13 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
-        if self.level is None:
+        if self.choose_level:
             wlen = len(self.wavelet)
-            self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+            level = int(np.log2(length / (wlen - 1)))
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index c552ae9..f25920c 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -327,6 +327,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=2)
         self.level = level
+        # without a given level, each call chooses one based on its input.
+        self.choose_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
@@ -488,13 +490,15 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
-        if self.level is None:
+        if self.choose_level:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index a62242a..9a158b9 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -119,6 +119,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         """
         self.wavelet = _as_wavelet(wavelet)
         self.level = level
+        # without a given level, each call chooses one based on its input.
+        self.choose_level = level is None
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
@@ -227,9 +229,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
-        if self.level is None:
+        if self.choose_level:
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min(
                     [
                         np.log2(depth / (wlen - 1)),
@@ -238,8 +240,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+            if self.level != level:
+                self.level = level
+                re_build = True
+        elif self.level is None or self.level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
-- 
2.43.0


From 10b65407926bd55a08e674d17b3cf98ba9f447d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 06/28] fix: non-separable MatrixWavedec2 failed on inputs too
 small for one level

It raised an UnboundLocalError instead of returning the input as the
approximation, as the separable transform and the 1d and 3d classes do.
---
 src/ptwt/matmul_transform_2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index f25920c..7e15f96 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -566,7 +566,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 )
                 split_list.append(WaveletDetailTuple2d(*reshaped))
                 ll = four_split[0]
-            ll = ll.T.reshape(batch_size, size[1] // 2, size[0] // 2).transpose(2, 1)
+            # without any level, the last size is the input size.
+            height, width = self.size_list[-1]
+            ll = ll.T.reshape(batch_size, width, height).transpose(2, 1)
 
         split_list.reverse()
         result: WaveletCoeff2d = ll, *split_list
-- 
2.43.0


From 615a1d38298f96dae31e1d330ccbf018b299c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 07/28] fix: MatrixWaverec3 rejected the approximation-only
 output of MatrixWavedec3

MatrixWavedec3 returns a single approximation if the input is too small
for one level. Its inverse raised a ValueError, unlike in 1d and 2d.
---
 src/ptwt/matmul_transform_3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 9a158b9..2becea3 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -432,6 +432,9 @@ class MatrixWaverec3(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
+        if level == 0:
+            # only an approximation: there is nothing to invert.
+            return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
         if type(coefficients[-1]) is dict:
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
-- 
2.43.0


From 662a65b413a47fb2ac7c1147dd8662c61f003982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 08/28] fix: swt and iswt wrapped wrongly when only one side
 needed another period

_circular_pad interleaved whole and partial periods, so a partial period on
one side became part of what the other side wrapped around to. For signal
lengths that are not divisible by 2^level the transform was no longer a
circular convolution and iswt did not restore the input.
---
 src/ptwt/stationary_transform.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/ptwt/stationary_transform.py b/src/ptwt/stationary_transform.py
index cb2c0cb..34b09e1 100644
--- a/src/ptwt/stationary_transform.py
+++ b/src/ptwt/stationary_transform.py
@@ -25,32 +25,26 @@ def _circular_pad(x: torch.Tensor, padding_dimensions: Sequence[int]) -> torch.T
     """Pad a tensor in circular mode, more than once if needed."""
     trailing_dimension = x.shape[-1]
 
-    # if every padding dimension is smaller than or equal the trailing dimension,
-    # we do not need to manually wrap
-    if not any(
+    # F.pad wraps around once at most: prepend and append whole periods while
+    # a padding dimension is larger than the trailing dimension. Partial periods
+    # have to wait for the last step, since both sides must see whole periods.
+    while any(
         padding_dimension > trailing_dimension
         for padding_dimension in padding_dimensions
     ):
-        return F.pad(x, padding_dimensions, mode="circular")
-
-    # repeat to pad at maximum trailing dimensions until all padding dimensions are zero
-    while any(padding_dimension > 0 for padding_dimension in padding_dimensions):
-        # reduce every padding dimension to at maximum trailing dimension width
-        reduced_padding_dimensions = [
-            min(trailing_dimension, padding_dimension)
+        whole_periods = [
+            trailing_dimension if padding_dimension > trailing_dimension else 0
             for padding_dimension in padding_dimensions
         ]
-        # pad using reduced dimensions,
-        # which will never throw the circular wrap error
-        x = F.pad(x, reduced_padding_dimensions, mode="circular")
-        # remove the pad width that was just padded, and repeat
-        # if any pad width is greater than zero
+        x = F.pad(x, whole_periods, mode="circular")
         padding_dimensions = [
-            max(padding_dimension - trailing_dimension, 0)
-            for padding_dimension in padding_dimensions
+            padding_dimension - whole_period
+            for padding_dimension, whole_period in zip(
+                padding_dimensions, whole_periods
+            )
         ]
 
-    return x
+    return F.pad(x, padding_dimensions, mode="circular")
 
 
 def swt(
-- 
2.43.0


From ac57999dfb0dae3ca18e07eaed3e8db8e5446300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 09/28] fix: wavedec2 and wavedec3 with level=None rejected
 non-pywt wavelet objects

---
 src/ptwt/conv_transform_2.py | 3 ++-
 src/ptwt/conv_transform_3.py | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/conv_transform_2.py b/src/ptwt/conv_transform_2.py
index a0ff680..a5ab8df 100644
--- a/src/ptwt/conv_transform_2.py
+++ b/src/ptwt/conv_transform_2.py
@@ -135,7 +135,8 @@ def wavedec2(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level([data.shape[-1], data.shape[-2]], wavelet)
+        filt_len = dec_lo.shape[-1]
+        level = min(pywt.dwt_max_level(size, filt_len) for size in data.shape[-2:])
 
     result_lst: list[WaveletDetailTuple2d] = []
     res_ll = data
diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index 12a0a51..c5f51fc 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -114,9 +114,8 @@ def wavedec3(
     )
 
     if level is None:
-        level = pywt.dwtn_max_level(
-            [data.shape[-1], data.shape[-2], data.shape[-3]], wavelet
-        )
+        filt_len = dec_lo.shape[-1]
+        level = min(pywt.dwt_max_level(size, filt_len) for size in data.shape[-3:])
 
     result_lst: list[WaveletDetailDict] = []
     # drop the channel dim, it is added for the convolution on each level.
-- 
2.43.0


From 8a1bf4961012ae28c58902fc9e979f3b7677bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 10/28] fix: fswaverec2 and fswaverec3 silently cropped
 coefficients of mismatching shapes

---
 src/ptwt/_util.py                    | 27 +++++++++++++++++++++++++++
 src/ptwt/separable_conv_transform.py |  4 +++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..9fef940 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -348,6 +348,33 @@ def _check_same_device_dtype(
     return torch_device, torch_dtype
 
 
+def _check_level_shapes(
+    approx: torch.Tensor, details: WaveletDetailDict, *, padded: bool
+) -> None:
+    """Check that the coefficients of one level belong together.
+
+    Args:
+        approx (torch.Tensor): The batched approximation to combine with `details`.
+        details (WaveletDetailDict): The detail coefficients of the level.
+        padded (bool): If true, the transformed axes of `approx` may end with one
+            additional sample, since it was reconstructed from coarser levels.
+
+    Raises:
+        ValueError: If the shapes do not fit.
+    """
+    shapes = {coeff.shape for coeff in details.values()}
+    if len(shapes) != 1:
+        raise ValueError("All coefficients on each level must have the same shape")
+    shape = shapes.pop()
+    extra = [a - d for a, d in zip(approx.shape, shape)]
+    if (
+        len(approx.shape) != len(shape)
+        or extra[0] != 0
+        or any(e not in ((0, 1) if padded else (0,)) for e in extra[1:])
+    ):
+        raise ValueError("All coefficients on each level must have the same shape")
+
+
 def _get_transpose_order(
     axes: Sequence[int], data_shape: Sequence[int]
 ) -> tuple[list[int], list[int]]:
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 45b3f0f..79a39e1 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -17,6 +17,7 @@ import torch
 from ._util import (
     AxisHint,
     _as_wavelet,
+    _check_level_shapes,
     _check_same_device_dtype,
     _postprocess_coeffs,
     _postprocess_tensor,
@@ -177,7 +178,8 @@ def _separable_conv_waverecn(
         raise ValueError("All entries after approximation tensor must be dicts.")
 
     approx: torch.Tensor = coeffs[0]
-    for level_dict in coeffs[1:]:
+    for pos, level_dict in enumerate(coeffs[1:]):
+        _check_level_shapes(approx, level_dict, padded=pos > 0)
         keys = list(level_dict.keys())
         approx_key = "a" * max(map(len, keys))
         # use a new dict to leave the caller's coefficients untouched.
-- 
2.43.0


From 97953c0ff995cbd62700ce20f57edb943907d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 11/28] fix: MatrixWaverec3 silently cropped approximations of
 mismatching shape

---
 src/ptwt/matmul_transform_3.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 2becea3..f04b760 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -12,6 +12,7 @@ import torch
 from ._util import (
     AxisHint,
     _as_wavelet,
+    _check_level_shapes,
     _check_same_device_dtype,
     _deprecated_alias,
     _ensure_axes,
@@ -474,14 +475,7 @@ class MatrixWaverec3(object):
                     "coefficients must be a dict containing 7 tensors as returned by "
                     "MatrixWavedec3."
                 )
-            test_shape = None
-            for coeff in coeff_dict.values():
-                if test_shape is None:
-                    test_shape = coeff.shape
-                elif test_shape != coeff.shape:
-                    raise ValueError(
-                        "All coefficients on each level must have the same shape"
-                    )
+            _check_level_shapes(lll, coeff_dict, padded=c_pos > 0)
 
             # use a new dict to leave the caller's coefficients untouched.
             lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
-- 
2.43.0


From 27c250283286520e147dda67e7faec4689424982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 12/28] fix: the shape check of fswaverec2 and fswaverec3
 failed under torch.jit.trace

---
 src/ptwt/_util.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 9fef940..2c425cb 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -362,15 +362,17 @@ def _check_level_shapes(
     Raises:
         ValueError: If the shapes do not fit.
     """
-    shapes = {coeff.shape for coeff in details.values()}
-    if len(shapes) != 1:
-        raise ValueError("All coefficients on each level must have the same shape")
-    shape = shapes.pop()
-    extra = [a - d for a, d in zip(approx.shape, shape)]
+    # compare the sizes with == only, torch.jit.trace does not preserve hashes.
+    shape = next((coeff.shape for coeff in details.values()), None)
     if (
-        len(approx.shape) != len(shape)
-        or extra[0] != 0
-        or any(e not in ((0, 1) if padded else (0,)) for e in extra[1:])
+        shape is None
+        or any(coeff.shape != shape for coeff in details.values())
+        or len(approx.shape) != len(shape)
+        or approx.shape[0] != shape[0]
+        or any(
+            a != d and not (padded and a == d + 1)
+            for a, d in zip(approx.shape[1:], shape[1:])
+        )
     ):
         raise ValueError("All coefficients on each level must have the same shape")
 
-- 
2.43.0


From 24994663bc800d22f83e2a3592bb274474432fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 13/28] fix: orthogonalize accepted invalid methods when no row
 needed orthogonalization

---
 src/ptwt/matmul_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 6202e57..ef9ca4d 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -155,14 +155,14 @@ def orthogonalize(
     Raises:
         ValueError: If an invalid orthogonalization method is given
     """
+    if method not in ("qr", "gramschmidt"):
+        raise ValueError(f"Invalid orthogonalization method: {method}")
     to_orthogonalize = _get_to_orthogonalize(matrix, filt_len)
     if len(to_orthogonalize) == 0:
         return matrix
     if method == "qr":
         return _orth_by_qr(matrix, to_orthogonalize)
-    elif method == "gramschmidt":
-        return _orth_by_gram_schmidt(matrix, to_orthogonalize)
-    raise ValueError(f"Invalid orthogonalization method: {method}")
+    return _orth_by_gram_schmidt(matrix, to_orthogonalize)
 
 
 class BaseMatrixWaveDec:
-- 
2.43.0


From 1ae1a952a655f79878ca2baa801748bb417166b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 14/28] fix: default levels counted the filters of a
 WaveletTensorTuple instead of their taps

---
 src/ptwt/matmul_transform.py         | 2 +-
 src/ptwt/matmul_transform_2.py       | 2 +-
 src/ptwt/matmul_transform_3.py       | 2 +-
 src/ptwt/separable_conv_transform.py | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index ef9ca4d..8383699 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -402,7 +402,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             re_build = True
 
         if self.choose_level:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(np.log2(length / (wlen - 1)))
             if self.level != level:
                 self.level = level
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 7e15f96..48627e6 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -491,7 +491,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             re_build = True
 
         if self.choose_level:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index f04b760..4cbae61 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -231,7 +231,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             re_build = True
 
         if self.choose_level:
-            wlen = len(self.wavelet)
+            wlen = self.wavelet.dec_len
             level = int(
                 np.min(
                     [
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 79a39e1..3432e45 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -16,9 +16,9 @@ import torch
 
 from ._util import (
     AxisHint,
-    _as_wavelet,
     _check_level_shapes,
     _check_same_device_dtype,
+    _get_len,
     _postprocess_coeffs,
     _postprocess_tensor,
     _preprocess_coeffs,
@@ -139,7 +139,7 @@ def _separable_conv_wavedecn(
     approx = input
 
     if level is None:
-        wlen = len(_as_wavelet(wavelet))
+        wlen = _get_len(wavelet)
         level = int(
             min([np.log2(axis_len / (wlen - 1)) for axis_len in input.shape[1:]])
         )
-- 
2.43.0


From e71a36887da61536427837dfc8227ad8f4882704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 15/28] fix: waverec2 and MatrixWaverec2 ignored additional
 detail coefficients of a level

---
 src/ptwt/_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index 2c425cb..b2f13d5 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -448,6 +448,10 @@ def _coeff_tree_map(
     ] = []
     for element in coeffs[1:]:
         if isinstance(element, tuple):
+            if len(element) != 3:
+                raise ValueError(
+                    f"Expected a 3-tuple of detail coefficients, got {len(element)}"
+                )
             result_lst.append(
                 WaveletDetailTuple2d(
                     function(element[0]),
-- 
2.43.0


From b0c5a8ea62ed099ae58e3843d87908eb0e681231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 16/28] fix: sparse_diag failed when no value of the diagonal
 fits into the matrix

---
 src/ptwt/sparse_math.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..dc205f0 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -181,14 +181,9 @@ def sparse_diag(
     if col_offset < 0:
         diag_indices[0] += abs(col_offset)
 
-    if torch.max(diag_indices[0]) >= rows:
-        mask = diag_indices[0] < rows
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
-    if torch.max(diag_indices[1]) >= cols:
-        mask = diag_indices[1] < cols
-        diag_indices = diag_indices[:, mask]
-        diagonal = diagonal[mask]
+    mask = (diag_indices[0] < rows) & (diag_indices[1] < cols)
+    diag_indices = diag_indices[:, mask]
+    diagonal = diagonal[mask]
 
     diag = torch.sparse_coo_tensor(
         diag_indices,
-- 
2.43.0


From 05f707919d86c356cd560c77b55c31faaef64883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 17/28] fix: sparse_kron with a zero factor returned float32
 for every dtype

---
 src/ptwt/sparse_math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index dc205f0..8652a3f 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -62,10 +62,11 @@ def sparse_kron(
     nzz_b = len(sparse_tensor_b.values())
 
     # take care of the zero case.
+    output_dtype = torch.result_type(sparse_tensor_a, sparse_tensor_b)
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
-            torch.zeros([1]),
+            torch.zeros([2, 0], dtype=torch.int64, device=sparse_tensor_a.device),
+            torch.zeros([0], dtype=output_dtype, device=sparse_tensor_a.device),
             size=output_shape,
             device=sparse_tensor_a.device,
         )
-- 
2.43.0


From b8604bbfe84e7f82c4e175aa34f396fa7c8a07cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 18/28] fix: sparse_replace_row failed for matrices that are
 not square

---
 src/ptwt/sparse_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 8652a3f..400fdd9 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -229,7 +229,7 @@ def sparse_replace_row(
     removal_matrix = torch.sparse_coo_tensor(
         torch.stack([diag_indices] * 2, 0),
         diag,
-        size=matrix.shape,
+        size=(matrix.shape[0], matrix.shape[0]),
         device=matrix.device,
         dtype=matrix.dtype,
     )
-- 
2.43.0


From 71d66631ca119880ca7ed493938a84aa7eec6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 19/28] fix: copying or pickling a learnable continuous wavelet
 lost its parameters

---
 src/ptwt/continuous_transform.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..ae9456c 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -252,6 +252,22 @@ class _DifferentiableContinuousWavelet(
             requires_grad=True,
         )
 
+    def __reduce__(self) -> tuple[Any, ...]:
+        """Support copying and pickling.
+
+        Without this, the method of ContinuousWavelet would be used,
+        which creates a pywt wavelet without learnable parameters.
+        """
+        state = self.__dict__.copy()
+        state["_bounds"] = (self.lower_bound, self.upper_bound)
+        return type(self), (self.name,), state
+
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        """Restore the module and the bounds stored by pywt."""
+        state = state.copy()
+        self.lower_bound, self.upper_bound = state.pop("_bounds")
+        super().__setstate__(state)
+
     def __call__(self, grid_values: torch.Tensor) -> torch.Tensor:
         """Return numerical values for the wavelet on a grid.
 
-- 
2.43.0


From c6b48cf36356f5aeb26085a46cb3063ca9183d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:58 +0000
Subject: [PATCH 20/28] fix: MatrixWaverec3 rejected detail coefficients in
 subclasses of dict for some input ranks

---
 src/ptwt/matmul_transform_3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 4cbae61..65157df 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -436,7 +436,7 @@ class MatrixWaverec3(object):
         if level == 0:
             # only an approximation: there is nothing to invert.
             return _postprocess_tensor(coefficients[0], ndim=3, ds=ds, axes=self.axes)
-        if type(coefficients[-1]) is dict:
+        if isinstance(coefficients[-1], dict):
             depth, height, width = tuple(
                 c * 2 for c in coefficients[-1]["ddd"].shape[-3:]
             )
-- 
2.43.0


From 7ea8c0aec16a5bbfd4ddcc8efd840040936c499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 21/28] fix: boundary-wavelet transforms rejected batches
 without any entries

---
 src/ptwt/matmul_transform.py   |  4 ++--
 src/ptwt/matmul_transform_2.py | 16 ++++++++--------
 src/ptwt/matmul_transform_3.py |  4 ++--
 src/ptwt/sparse_math.py        |  8 ++++++--
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 8383699..b282d90 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -384,11 +384,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
         if input_signal.shape[-1] % 2 != 0:
             # odd length input
             input_signal = _fwt_pad(
-                input_signal,
+                input_signal.unsqueeze(1),
                 wavelet=self.wavelet,
                 mode=self.odd_coeff_padding_mode,
                 padding=(0, 1),
-            )
+            ).squeeze(1)
 
         _, length = input_signal.shape
 
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 48627e6..dad3979 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -512,11 +512,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 padding_1 = (0, 1) if pad[1] else (0, 0)
 
                 signal = _fwt_pad2(
-                    signal,
+                    signal.unsqueeze(1),
                     wavelet=self.wavelet,
                     mode=self.odd_coeff_padding_mode,
                     padding=padding_0 + padding_1,
-                )
+                ).squeeze(1)
             return signal
 
         split_list: list[WaveletDetailTuple2d] = []
@@ -537,7 +537,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
                 split_list.append(WaveletDetailTuple2d(lh, hl, hh))
         else:
-            ll = input_signal.transpose(-2, -1).reshape([batch_size, -1]).T
+            ll = input_signal.transpose(-2, -1).flatten(1).T
             for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
                 fwt_matrix = cast(torch.Tensor, fwt_matrix)
                 pad = self.pad_list[scale]
@@ -547,7 +547,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                         batch_size, size[1] - int(pad[0]), size[0] - int(pad[1])
                     ).transpose(2, 1)
                     ll_reshape = _add_padding(ll_reshape, pad)
-                    ll = ll_reshape.transpose(2, 1).reshape([batch_size, -1]).T
+                    ll = ll_reshape.transpose(2, 1).flatten(1).T
                 coefficients = torch.sparse.mm(fwt_matrix, ll)
                 # get the ll,
                 four_split = torch.split(
@@ -830,10 +830,10 @@ class MatrixWaverec2(object):
             else:
                 ll = torch.cat(
                     [
-                        ll.transpose(2, 1).reshape([batch_size, -1]),
-                        lh.transpose(2, 1).reshape([batch_size, -1]),
-                        hl.transpose(2, 1).reshape([batch_size, -1]),
-                        hh.transpose(2, 1).reshape([batch_size, -1]),
+                        ll.transpose(2, 1).flatten(1),
+                        lh.transpose(2, 1).flatten(1),
+                        hl.transpose(2, 1).flatten(1),
+                        hh.transpose(2, 1).flatten(1),
                     ],
                     -1,
                 )
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 65157df..95b917b 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -260,11 +260,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             padding_height = (0, 1) if pad_tuple.height else (0, 0)
             padding_depth = (0, 1) if pad_tuple.depth else (0, 0)
             lll = _fwt_pad3(
-                lll,
+                lll.unsqueeze(1),
                 wavelet=self.wavelet,
                 mode=self.odd_coeff_padding_mode,
                 padding=padding_width + padding_height + padding_depth,
-            )
+            ).squeeze(1)
 
             for dim, mat in enumerate(fwt_mats[::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 400fdd9..72bb8eb 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -605,8 +605,12 @@ def batch_mm(matrix: torch.Tensor, matrix_batch: torch.Tensor) -> torch.Tensor:
         raise ValueError("Matrix shapes not compatible.")
 
     # Stack the vector batch into columns. (b, n, k) -> (n, b, k) -> (n, b*k)
-    vectors = matrix_batch.transpose(0, 1).reshape(matrix.shape[1], -1)
-    return matrix.mm(vectors).reshape(matrix.shape[0], batch_size, -1).transpose(1, 0)
+    vectors = matrix_batch.transpose(0, 1).flatten(1)
+    return (
+        matrix.mm(vectors)
+        .reshape(matrix.shape[0], batch_size, matrix_batch.shape[2])
+        .transpose(1, 0)
+    )
 
 
 def _batch_dim_mm(
-- 
2.43.0


From 301fc3e187ad5b599cca5d0463b713ab47b57627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 22/28] fix: rec_lo_orthogonality_loss failed for filters of
 another type than the default

---
 src/ptwt/wavelets_learnable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/wavelets_learnable.py b/src/ptwt/wavelets_learnable.py
index 2aaad82..2c4feea 100644
--- a/src/ptwt/wavelets_learnable.py
+++ b/src/ptwt/wavelets_learnable.py
@@ -240,6 +240,7 @@ class SoftOrthogonalWavelet(ProductFilter, torch.nn.Module):
                         filt_len,
                     ],
                     device=self.dec_lo.device,
+                    dtype=self.dec_lo.dtype,
                 ),
             ],
             -1,
-- 
2.43.0


From eb6c41721632dbb556b569582e3996d2b34eabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 23/28] fix: cat_sparse_identity_matrix used floating-point
 indices, wrong for large float32 matrices

---
 src/ptwt/sparse_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 72bb8eb..f8df7f9 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -126,16 +126,15 @@ def cat_sparse_identity_matrix(
     if new_length == sparse_matrix.shape[0]:
         return sparse_matrix
 
+    # indices must be integers, floats are not exact for large matrices.
     x = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
         device=sparse_matrix.device,
     )
     y = torch.arange(
         sparse_matrix.shape[0],
         new_length,
-        dtype=sparse_matrix.dtype,
         device=sparse_matrix.device,
     )
     extra_indices = torch.stack([x, y])
-- 
2.43.0


From 30cc7bf50a4f9b8d06ad00d45c28542288c6f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 24/28] fix: sparse_replace_row lost the new row for negative
 row indices

---
 src/ptwt/sparse_math.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index f8df7f9..7b44af3 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -235,7 +235,13 @@ def sparse_replace_row(
     row = row.coalesce()
 
     addition_matrix = torch.sparse_coo_tensor(
-        torch.stack((row.indices()[0, :] + row_index, row.indices()[1, :]), 0),
+        torch.stack(
+            (
+                row.indices()[0, :] + row_index % matrix.shape[0],
+                row.indices()[1, :],
+            ),
+            0,
+        ),
         row.values(),
         size=matrix.shape,
         device=matrix.device,
-- 
2.43.0


From 874d97f3e5686c610dbc7acd3451a725711db088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 25/28] fix: boundary transforms used half-built matrices after
 an interrupted construction

---
 src/ptwt/matmul_transform.py   | 10 ++++++++--
 src/ptwt/matmul_transform_2.py | 18 ++++++++++++++----
 src/ptwt/matmul_transform_3.py | 10 ++++++++--
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index b282d90..950ab36 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -316,6 +316,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         if self.level is None or self.input_length is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        fwt_matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -351,10 +353,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 device=device,
                 dtype=dtype,
             )
-            self.fwt_matrix_list.append(an)
+            fwt_matrix_list.append(an)
             curr_length = curr_length // 2
 
         self.size_list.append(curr_length)
+        self.fwt_matrix_list = fwt_matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
         """Compute the matrix FWT for the given input signal.
@@ -614,6 +617,8 @@ class MatrixWaverec(object):
         self, device: Union[torch.device, str], dtype: torch.dtype
     ) -> None:
         self.ifwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        ifwt_matrix_list: list[torch.Tensor] = []
         self.size_list = []
         self.padded = False
         if self.level is None or self.input_length is None:
@@ -648,8 +653,9 @@ class MatrixWaverec(object):
                 device=device,
                 dtype=dtype,
             )
-            self.ifwt_matrix_list.append(sn)
+            ifwt_matrix_list.append(sn)
             curr_length = curr_length // 2
+        self.ifwt_matrix_list = ifwt_matrix_list
 
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index dad3979..eb1b272 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -393,6 +393,10 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        fwt_matrix_list: list[
+            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
+        ] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -434,7 +438,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(
+                fwt_matrix_list.append(
                     (analysis_matrix_rows, analysis_matrix_cols)
                 )
             else:
@@ -446,10 +450,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(analysis_matrix_2d)
+                fwt_matrix_list.append(analysis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
         self.size_list.append((current_height, current_width))
+        self.fwt_matrix_list = fwt_matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
         """Compute the FWT for the given input signal.
@@ -692,6 +697,10 @@ class MatrixWaverec2(object):
         dtype: torch.dtype,
     ) -> None:
         self.ifwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        ifwt_matrix_list: list[
+            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
+        ] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -730,7 +739,7 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(
+                ifwt_matrix_list.append(
                     (synthesis_matrix_rows, synthesis_matrix_cols)
                 )
             else:
@@ -742,9 +751,10 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(synthesis_matrix_2d)
+                ifwt_matrix_list.append(synthesis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
+        self.ifwt_matrix_list = ifwt_matrix_list
 
     def __call__(
         self,
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 95b917b..71669d1 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -142,6 +142,8 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        fwt_matrix_list: list[list[torch.Tensor]] = []
         self.size_list = []
         self.pad_list = []
         self.padded = False
@@ -186,7 +188,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.fwt_matrix_list.append(analysis_matrics)
+            fwt_matrix_list.append(analysis_matrics)
 
             current_depth, current_height, current_width = (
                 current_depth // 2,
@@ -194,6 +196,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 current_width // 2,
             )
         self.size_list.append((current_depth, current_height, current_width))
+        self.fwt_matrix_list = fwt_matrix_list
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
         """Compute a separable 3d FWT using boundary wavelets.
@@ -351,6 +354,8 @@ class MatrixWaverec3(object):
         dtype: torch.dtype,
     ) -> None:
         self.ifwt_matrix_list = []
+        # only store the matrices once all of them could be constructed.
+        ifwt_matrix_list: list[list[torch.Tensor]] = []
         self.padded = False
         if self.level is None or self.input_signal_shape is None:
             raise AssertionError
@@ -393,12 +398,13 @@ class MatrixWaverec3(object):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.ifwt_matrix_list.append(synthesis_matrices)
+            ifwt_matrix_list.append(synthesis_matrices)
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
+        self.ifwt_matrix_list = ifwt_matrix_list
 
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
         done_dict = {}
-- 
2.43.0


From d7f193a720912486aee5df11599b46a54abe4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:36 +0000
Subject: [PATCH 26/28] fix: MatrixWaverec2 rejected an approximation without
 details for empty batches

---
 src/ptwt/matmul_transform_2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index eb1b272..d579f70 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -780,7 +780,8 @@ class MatrixWaverec2(object):
         torch_device, torch_dtype = _check_same_device_dtype(coefficients)
 
         level = len(coefficients) - 1
-        height, width = tuple(c * 2 for c in coefficients[-1][0].shape[-2:])
+        finest = coefficients[-1] if level == 0 else coefficients[-1][0]
+        height, width = tuple(c * 2 for c in finest.shape[-2:])
 
         re_build = False
         if (
-- 
2.43.0


From f8eef7a3be05e7c1405099d3ee73b2107097a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:21 +0000
Subject: [PATCH 27/28] fix: Shannon wavelet is finite where its grid contains
 zero

---
 src/ptwt/continuous_transform.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index ae9456c..60479d1 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -311,10 +311,7 @@ class _ShannonWavelet(_DifferentiableContinuousWavelet):
         """Return numerical values for the wavelet on a grid."""
         shannon = (
             torch.sqrt(self.bandwidth)
-            * (
-                torch.sin(torch.pi * self.bandwidth * grid_values)
-                / (torch.pi * self.bandwidth * grid_values)
-            )
+            * torch.sinc(self.bandwidth * grid_values)
             * torch.exp(1j * 2 * torch.pi * self.center * grid_values)
         )
         return shannon
-- 
2.43.0


From 8e5920b30257ccf13e07c1294507f5ad4a489c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 28/28] fix: boundary transforms interrupted before a rebuild
 used matrices of another size

---
 src/ptwt/matmul_transform.py   | 7 +++++++
 src/ptwt/matmul_transform_2.py | 8 ++++++++
 src/ptwt/matmul_transform_3.py | 8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 950ab36..f82a1b0 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -397,10 +397,13 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         re_build = False
         if self.input_length != length:
+            # the matrices that are stored do not fit any more.
+            self.fwt_matrix_list = []
             self.input_length = length
             re_build = True
 
         if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.fwt_matrix_list = []
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
@@ -408,6 +411,7 @@ class MatrixWavedec(BaseMatrixWaveDec):
             wlen = self.wavelet.dec_len
             level = int(np.log2(length / (wlen - 1)))
             if self.level != level:
+                self.fwt_matrix_list = []
                 self.level = level
                 re_build = True
         elif self.level is None or self.level <= 0:
@@ -682,11 +686,14 @@ class MatrixWaverec(object):
 
         re_build = False
         if self.level != level or self.input_length != input_length:
+            # the matrices that are stored do not fit any more.
+            self.ifwt_matrix_list = []
             self.level = level
             self.input_length = input_length
             re_build = True
 
         if self.matrix_type != (torch_dtype, torch_device):
+            self.ifwt_matrix_list = []
             self.matrix_type = (torch_dtype, torch_device)
             re_build = True
 
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index d579f70..9cd8e2a 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -488,10 +488,13 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            # the matrices that are stored do not fit any more.
+            self.fwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
         if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.fwt_matrix_list = []
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
@@ -501,6 +504,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
             if self.level != level:
+                self.fwt_matrix_list = []
                 self.level = level
                 re_build = True
         elif self.level is None or self.level <= 0:
@@ -789,14 +793,18 @@ class MatrixWaverec2(object):
             or self.input_signal_shape[0] != height
             or self.input_signal_shape[1] != width
         ):
+            # the matrices that are stored do not fit any more.
+            self.ifwt_matrix_list = []
             self.input_signal_shape = height, width
             re_build = True
 
         if self.level != level:
+            self.ifwt_matrix_list = []
             self.level = level
             re_build = True
 
         if self.matrix_type != (torch_dtype, torch_device):
+            self.ifwt_matrix_list = []
             self.matrix_type = (torch_dtype, torch_device)
             re_build = True
 
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 71669d1..8f5e731 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -226,10 +226,13 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            # the matrices that are stored do not fit any more.
+            self.fwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
         if self.matrix_type != (input_signal.dtype, input_signal.device):
+            self.fwt_matrix_list = []
             self.matrix_type = (input_signal.dtype, input_signal.device)
             re_build = True
 
@@ -245,6 +248,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 )
             )
             if self.level != level:
+                self.fwt_matrix_list = []
                 self.level = level
                 re_build = True
         elif self.level is None or self.level <= 0:
@@ -456,14 +460,18 @@ class MatrixWaverec3(object):
             or self.input_signal_shape[1] != height
             or self.input_signal_shape[2] != width
         ):
+            # the matrices that are stored do not fit any more.
+            self.ifwt_matrix_list = []
             self.input_signal_shape = depth, height, width
             re_build = True
 
         if self.level != level:
+            self.ifwt_matrix_list = []
             self.level = level
             re_build = True
 
         if self.matrix_type != (torch_dtype, torch_device):
+            self.ifwt_matrix_list = []
             self.matrix_type = (torch_dtype, torch_device)
             re_build = True
 
-- 
2.43.0

