From eb184813db7c701d5052f161b65244723cc2ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:09 +0000
Subject: [PATCH 01/63] fix: swap row and column bounds in the block statistics
 of non-square images

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..6401c5d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -77,8 +77,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +108,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -170,8 +170,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
-- 
2.43.0


From 8d9450ac2e9a6aeba986b40eff687a1a95763cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:26 +0000
Subject: [PATCH 02/63] fix: read block statistics input through a contiguous
 double array and release the temporaries

minstd/getstatistics took the raw buffer as C-contiguous doubles, so strided
views (the real part of an inverse FFT) and float32 images were misread or read
out of bounds; temporaries and outputs leaked; uncovered margins were uninitialised.
---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6401c5d..5e1106b 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -62,14 +62,16 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Use an aligned, C-contiguous double array (the input may be of any type or layout)
+    matin = (PyArrayObject *) PyArray_FROMANY((PyObject *) matin, NPY_DOUBLE, 2, 2, NPY_ARRAY_CARRAY_RO);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    tmp=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    matout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    tmp=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
@@ -134,6 +136,8 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(matin);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -152,6 +156,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Use an aligned, C-contiguous double array (the input may be of any type or layout)
+    matin = (PyArrayObject *) PyArray_FROMANY((PyObject *) matin, NPY_DOUBLE, 2, 2, NPY_ARRAY_CARRAY_RO);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -159,9 +165,9 @@ static PyObject
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    skwout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    krtout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    stdevout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    skwout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    krtout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
@@ -224,9 +230,10 @@ static PyObject
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
+    Py_DECREF(matin);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    return Py_BuildValue("(NNN)", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From d7905cf8b4003e7dfe6333b2c27eab49b24d414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:26 +0000
Subject: [PATCH 03/63] fix: assign MAD block statistics to their own blocks
 for every block size and overlap

---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..ce233d5 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -646,8 +646,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
+    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
+        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
             mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
             std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From d0d9a868468aa719aa9138244c3b67b4976926d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 04/63] fix: do not modify the caller's weights in MAD

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index ce233d5..b594749 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -740,7 +740,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = np.asarray(weights) / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From ae1ff456fa94519a5e4c8c2010e7076c2b42707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 05/63] fix: average FSIM, MS-SSIM, VIFp and VSI over the
 slices of the given dimension

---
 src/viqa/fr_metrics/fsim.py   | 8 ++++++--
 src/viqa/fr_metrics/msssim.py | 8 ++++++--
 src/viqa/fr_metrics/vif.py    | 8 ++++++--
 src/viqa/fr_metrics/vsi.py    | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..7748aa1 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -242,9 +242,13 @@ class FSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..2e73c1d 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -245,9 +245,13 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..6f006f0 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -218,9 +218,13 @@ class VIFp(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..2c4e55e 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -239,9 +239,13 @@ class VSI(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in {0, 1, 2}:
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From ff8c074710079b08f76128bdb40a1c36ad59f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 06/63] fix: calculate UQI without the stabilizing constants of
 SSIM

---
 src/viqa/fr_metrics/uqi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/uqi.py b/src/viqa/fr_metrics/uqi.py
index 8b567cf..fcd2520 100644
--- a/src/viqa/fr_metrics/uqi.py
+++ b/src/viqa/fr_metrics/uqi.py
@@ -155,8 +155,8 @@ class UQI(FullReferenceMetricsInterface):
             img_r,
             img_m,
             data_range=self.parameters["data_range"],
-            k_1=0,
-            k_2=0,
+            K1=0,
+            K2=0,
             alpha=1,
             beta=1,
             gamma=1,
-- 
2.43.0


From 91416dfa7721bcd42ad3bea1b322ffd29b3ca0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 07/63] fix: accept RGB images in VSI with chromatic=True

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 2c4e55e..eedde47 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -260,7 +260,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim or im_slice:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From 9a921f19e310d904adaedca6987a8ef82df57b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 08/63] fix: score flipped float views with the torch based
 metrics

---
 src/viqa/utils/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..e2a945c 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -419,8 +419,9 @@ def gabor_convolve(
 
 def _check_chromatic(img_r, img_m, chromatic):
     """Permute image based on dimensions and chromaticity."""
-    img_r = _to_float(img_r, np.float32)
-    img_m = _to_float(img_m, np.float32)
+    # torch does not support negative strides
+    img_r = np.ascontiguousarray(_to_float(img_r, np.float32))
+    img_m = np.ascontiguousarray(_to_float(img_m, np.float32))
     # check if chromatic
     if chromatic is False:
         if img_r.ndim == 3:
-- 
2.43.0


From 78b85814fd6563d83c918d928a234e34e7e82985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 09/63] fix: apply the documented RGB to YUV matrix

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index e2a945c..aac38bd 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -46,7 +46,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From cff4057b3ebb08855de0538cdf8f06001d99f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:25 +0000
Subject: [PATCH 10/63] fix: do not saturate grayscale conversion of images
 with more than 8 bit

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index aac38bd..1e4c61f 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -33,7 +33,7 @@ def _to_grayscale(img):
     """Convert an image to grayscale."""
     img = _to_float(img)
     img_gray = ski.color.rgb2gray(img)
-    img_gray[img_gray > 255] = 255
+    img_gray = np.minimum(img_gray, np.max(img))
     return img_gray
 
 
-- 
2.43.0


From 1d46407d33d19292c236c2c2eff4c7bb9c00b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 11/63] fix: do not treat 2D images of width 3 as RGB images

---
 src/viqa/utils/loading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..fa10026 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -1000,12 +1000,13 @@ def _check_imgs(
 
     if not isinstance(img_r_loaded, list):
         # Check if images are chromatic
-        if chromatic is False and img_r_loaded.shape[-1] == 3:
+        is_rgb = img_r_loaded.ndim == 3 and img_r_loaded.shape[-1] == 3
+        if chromatic is False and is_rgb:
             # Convert to grayscale as backup if falsely claimed to be non-chromatic
             warn("Images are chromatic. Converting to grayscale.")
             img_r_loaded = _to_grayscale(img_r_loaded)
             img_m_loaded = _to_grayscale(img_m_loaded)
-        elif chromatic is True and img_r_loaded.shape[-1] != 3:
+        elif chromatic is True and not is_rgb:
             raise ValueError("Images are not chromatic.")
 
     return img_r_loaded, img_m_loaded
-- 
2.43.0


From 7b02fbbb17b9a6c12fced68da294c4b6bb61fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 12/63] fix: read the last line of .mhd headers without a
 trailing newline

---
 src/viqa/utils/loading.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index fa10026..761ac43 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -429,13 +429,13 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     """
     file_path = os.path.join(file_dir, file_name)  # Complete file path
 
-    f = open(file=file_path)  # Open header file
-
-    file_header_txt = f.read().split("\n")  # Extract header lines
+    with open(file=file_path) as f:  # Open header file
+        file_header_txt = f.read().splitlines()  # Extract header lines
     # Create dictionary from lines
     file_header = {
         key: value
-        for line in file_header_txt[0:-1]
+        for line in file_header_txt
+        if line.strip()
         for key, value in [line.split(" = ")]
     }
 
-- 
2.43.0


From 9d40773e183179ada5c8665b4a177443c4c2d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 13/63] fix: normalize in floating point and compare data
 ranges by value

---
 src/viqa/utils/loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 761ac43..75c83a3 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -850,8 +850,9 @@ def normalize_data(
         raise ValueError("Data type not supported")
 
     # Check if data is already normalized
-    if info.max is not data_range_output[1] or info.min is not data_range_output[0]:
+    if info.max != data_range_output[1] or info.min != data_range_output[0]:
         # Normalize data
+        img = img.astype(np.float64)  # Avoid overflows of the input data type
         if automatic_data_range:
             img_min = np.min(img)  # Get minimum value of numpy array
             img_max = np.max(img)  # Get maximum value of numpy array
-- 
2.43.0


From 220ab0a11d08b316806bb3ae4a6811ba7f5210b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 14/63] fix: store the histogram of integer images

---
 src/viqa/utils/loading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 75c83a3..cb0ac59 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -218,8 +218,8 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
-                self.view(), bins=np.iinfo(self.view().dtype).max
+            self.histogram = np.histogram(
+                self.view(), bins=min(np.iinfo(self.view().dtype).max, 2**16 - 1)
             )
         else:
             self.histogram = np.histogram(self.view(), bins=255)
-- 
2.43.0


From 109de0a56598876f91b6fd543d980ba74f937c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 15/63] fix: calculate GSM of integer images in floating point

---
 src/viqa/fr_metrics/gsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..201dac3 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -405,6 +405,8 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
         gradient similarity. IEEE Transactions on Image Processing, 21(4), 1500–1512.
         https://doi.org/10.1109/TIP.2011.2175935
     """
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
     gradients_r = []
     gradients_m = []
 
-- 
2.43.0


From f49a66e8708fc4d2ae1b0670a95c56a68ac07590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:59 +0000
Subject: [PATCH 16/63] fix: center the kernel in correlate_convolve_abs

---
 src/viqa/utils/misc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 1e4c61f..fe65b84 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -122,20 +122,21 @@ def correlate_convolve_abs(
         kernel = np.flip(kernel)  # Flip kernel
 
     kernel_size = kernel.shape[0]  # Get kernel size
+    pad_size = kernel_size // 2  # Center the kernel on the pixel
     ndim = len(img.shape)  # Get number of dimensions
 
     # Pad image
     match border_mode:
         case "constant":
-            origin = np.pad(img, kernel_size, mode="constant", constant_values=value)
+            origin = np.pad(img, pad_size, mode="constant", constant_values=value)
         case "reflect":
-            origin = np.pad(img, kernel_size, mode="reflect")
+            origin = np.pad(img, pad_size, mode="reflect")
         case "nearest":
-            origin = np.pad(img, kernel_size, mode="edge")
+            origin = np.pad(img, pad_size, mode="edge")
         case "mirror":
-            origin = np.pad(img, kernel_size, mode="symmetric")
+            origin = np.pad(img, pad_size, mode="symmetric")
         case "wrap":
-            origin = np.pad(img, kernel_size, mode="wrap")
+            origin = np.pad(img, pad_size, mode="wrap")
         case _:
             raise ValueError("Border mode not supported")
 
-- 
2.43.0


From 86ceefb42678287e501357e74c1d1d16a36d92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 17/63] fix: crop RGB images

---
 src/viqa/utils/loading.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index cb0ac59..8f9e8d4 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -932,6 +932,7 @@ def crop_image(
     img_shape = np.array(img.shape)
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
+        img_shape = img_shape[:2]
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
         if (crop_shape < img_shape).all():  # If cropping is smaller than original image
             if z is not None:
-- 
2.43.0


From 0d49bd921696c6c75bfefe68f51185395ec4a21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 18/63] fix: allow cropping only some of the axes

---
 src/viqa/utils/loading.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 8f9e8d4..13f294d 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -934,22 +934,22 @@ def crop_image(
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
         img_shape = img_shape[:2]
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        if (crop_shape == img_shape).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits in original image
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        elif (crop_shape <= img_shape).all():  # If cropping fits in original image
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From cf683dd2a1d8e2fa764b4675f038307411426fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 19/63] fix: do not overwrite the score of metrics on export

---
 src/viqa/utils/export.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..b78165f 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -94,11 +94,12 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer = csv.writer(f)
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
-            if metric.score_val is None:
-                metric.score_val = "n/a"
+            score_val = metric.score_val
+            if score_val is None:
+                score_val = "n/a"
             else:
-                writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                writer.writerow([metric._name, score_val])
+            results_dict[metric._name] = score_val
     if return_dict:
         return results_dict
 
-- 
2.43.0


From 7552dc297fb9263b46bdfa9ae0dc5742797949c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 20/63] fix: set the name of the SNR metric

---
 src/viqa/nr_metrics/snr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..b2d73f9 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
-- 
2.43.0


From e503eb566a7d2005ad8e55dec838240adc2a738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 21/63] fix: return the SNR score value without the used
 parameters

---
 src/viqa/nr_metrics/snr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index b2d73f9..19baf67 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -145,6 +145,9 @@ class SNR(NoReferenceMetricsInterface):
         self.parameters.update(kwargs)
 
         score_val = signal_to_noise_ratio(img, **kwargs)
+        # For grayscale images the used parameters are returned with the score value
+        if isinstance(score_val[-1], dict):
+            score_val = score_val[0]
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From acda8b64dab72c0f9326a3c59fb64cc60f8c48a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:07 +0000
Subject: [PATCH 22/63] fix: calculate the luminance SNR of RGB images

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 19baf67..f90a889 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1075,7 +1075,7 @@ def signal_to_noise_ratio(
                     region_type,
                     auto_center=False,
                     yuv=False,
-                )
+                )[0]
             )
             snr_val = [
                 np.float64(np.mean(signal[..., i]) / sdev[i]) if sdev[i] != 0 else 0
-- 
2.43.0


From b87005bf29f611e0231b2bcfe86e9aa22f080423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:48 +0000
Subject: [PATCH 23/63] fix: mask cubic regions of RGB images

---
 src/viqa/utils/misc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index fe65b84..ed6a37c 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -624,9 +624,6 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From 6c571cdf1c051b856b299ffda74f210c99ac9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:38 +0000
Subject: [PATCH 24/63] fix: reject CNR and SNR regions that exceed the upper
 image border

---
 src/viqa/nr_metrics/cnr.py | 7 +++++++
 src/viqa/nr_metrics/snr.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..aa38902 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -818,6 +818,13 @@ def contrast_to_noise_ratio(
     if img.ndim != len(signal_center) or img.ndim != len(background_center):
         raise ValueError("Centers have to be in the same dimension as img.")
 
+    # Check if the regions exceed the upper border
+    for center in (signal_center, background_center):
+        if any(c + radius > size for c, size in zip(center, img.shape, strict=False)):
+            raise ValueError(
+                "Centers have to be at least the radius away from the border."
+            )
+
     # Define regions
     if region_type in {"full", "original"}:
         if not auto_center:
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index f90a889..21f03da 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1041,6 +1041,10 @@ def signal_to_noise_ratio(
         if img.ndim != len(signal_center):
             raise ValueError("Center has to be in the same dimension as img.")
 
+    # Check if the region exceeds the upper border
+    if any(c + radius > size for c, size in zip(signal_center, img.shape, strict=False)):
+        raise ValueError("Center has to be at least the radius away from the border.")
+
     # Color images
     if img.ndim == 3 and (img.shape[-1] == 3):  # 2D RGB image
         if yuv:
-- 
2.43.0


From a7b0a7533721ba0337b44a40d052b91c731d130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:38 +0000
Subject: [PATCH 25/63] fix: reuse batch results only for the same roi and
 resized shape

---
 src/viqa/multiple.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..ed9e765 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -255,30 +255,44 @@ class BatchMetrics(_MultipleInterface):
         modified_img = None
         prev_mod_path = None
         metric_results = None
+        prev_roi = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Results of the previous pair are only valid for the same roi
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+                and same_roi
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
             # Load the images only once if it is the same for multiple pairs
+            prev_ref_img = reference_img
             if reference_path != prev_ref_path:
                 reference_img = load_data(reference_path, **kwargs)
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
-            else:
+            elif (
+                same_roi
+                and reference_img.shape == prev_ref_img.shape
+                and reference_img.dtype == prev_ref_img.dtype
+            ):
                 prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+            else:  # the modified image is resized or cropped differently
+                prev_result_modified = None
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From f9767104a88388cd4911709e9b57da770b7e4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:57 +0000
Subject: [PATCH 26/63] fix: do not renormalize the cropped images in
 MultipleMetrics and BatchMetrics

---
 src/viqa/multiple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index ed9e765..93b319c 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -696,7 +696,7 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
         img_r = crop_image(img_r, *roi)
         img_m = crop_image(img_m, *roi)
 
-    img_r, img_m = _check_imgs(img_r, img_m, **kwargs)
+    img_r, img_m = _check_imgs(img_r, img_m)
 
     metric_results = {}
     for metric, parameters in tqdm(
-- 
2.43.0


From 3764949efa2ba75ee798ba7f281834c64ed5fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:46 +0000
Subject: [PATCH 27/63] fix: draw the CNR regions without an explicit region
 type

---
 src/viqa/nr_metrics/cnr.py      | 3 +++
 src/viqa/utils/visualization.py | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index aa38902..4cc9de4 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -239,6 +239,9 @@ class CNR(NoReferenceMetricsInterface):
         _check_border_too_close(signal_center, radius)
         _check_border_too_close(background_center, radius)
 
+        if "region_type" in self.parameters:
+            kwargs.setdefault("region_type", self.parameters["region_type"])
+
         # Visualize centers
         if img.ndim == 3 and img.shape[-1] != 3:  # 3D image
             _visualize_cnr_3d(
diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..567da92 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -46,7 +46,7 @@ def _visualize_cnr_2d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
@@ -127,7 +127,7 @@ def _visualize_cnr_3d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
-- 
2.43.0


From f5526e3e043de30777f57fe322def2874c5c7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:46 +0000
Subject: [PATCH 28/63] fix: combine image stacks in file name order without
 swapping the axes

---
 src/scripts/combine_stack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index c6184d3..34f0a5d 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,15 +27,16 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = glob.glob(os.path.join(input_path, f"*.{file_type}"))
+    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
         vol = []
         for file in files:
-            vol.append(_load_binary(file, data_type, size))
+            # Order axes as in the file (z, y, x)
+            vol.append(_load_binary(file, data_type, size).T)
 
-        vol = np.array(vol)
+        vol = np.concatenate(vol, axis=0)
         return vol
 
 
-- 
2.43.0


From 066719ee17ef1c913819bb5286a177d03fb635a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:46 +0000
Subject: [PATCH 29/63] fix: load non-square slices in the crop and projection
 scripts

---
 src/scripts/crop_image.py         | 2 +-
 src/scripts/reduce_projections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 967a369..24518cc 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -46,7 +46,7 @@ def load_volume(file, size, bitdepth):
     slices = []
     for i in range(size[2]):
         slice = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        slice = slice.reshape(size[0], size[1])
+        slice = slice.reshape(size[1], size[0])
         slices.append(slice)
     return np.stack(slices, axis=0)
 
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index bf41956..9d70a47 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -45,7 +45,7 @@ def load_projection(file, size, bitdepth):
     projections = []
     for i in range(size[2]):
         projection = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        projection = projection.reshape(size[0], size[1])
+        projection = projection.reshape(size[1], size[0])
         projections.append(projection)
     return projections
 
-- 
2.43.0


From a8689ccc90dfe2d2a00276bc7434f44a4cd71ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:46 +0000
Subject: [PATCH 30/63] fix: write pairs without the optional argument and copy
 to existing folders

---
 src/scripts/write_to_csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1228d99..1f02dd2 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -27,8 +27,8 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
     if not os.path.exists(path_csv):
         os.makedirs(path_csv)
-        if copy:
-            os.makedirs(os.path.join(path_csv, "images"))
+    if copy:
+        os.makedirs(os.path.join(path_csv, "images"), exist_ok=True)
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
@@ -62,7 +62,7 @@ if __name__ == "__main__":
         path_modified = sys.argv[1]
         path_reference = sys.argv[2]
         path_csv = sys.argv[3]
-        if sys.argv[4] == "copy":
+        if len(sys.argv) > 4 and sys.argv[4] == "copy":
             copy = True
             print(
                 f"Copying images from {path_modified} and {path_reference} "
-- 
2.43.0


From c891ee2bd5aa82742eb37b25aa899d43cd7acae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:51 +0000
Subject: [PATCH 31/63] fix: use the eroded region for CNR and SNR with
 region_type full

---
 src/viqa/nr_metrics/cnr.py | 4 ++--
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 4cc9de4..16dfa36 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -790,8 +790,8 @@ def contrast_to_noise_ratio(
             "sphere",
             "circle",
         }:
-            signal = np.ma.array(img, mask=~signal_region, copy=True)
-            background = np.ma.array(img, mask=~background_region, copy=True)
+            signal = np.ma.array(img, mask=~np.ma.filled(signal_region, False), copy=True)
+            background = np.ma.array(img, mask=~np.ma.filled(background_region, False), copy=True)
         elif region_type == "original":
             signal = img
             background = img
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 21f03da..8771c12 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -478,7 +478,7 @@ class SNR(NoReferenceMetricsInterface):
                 iterations=iterations_slider.value,
             )
 
-            glob_signal = np.ma.array(img, mask=~signal_region, copy=True)
+            glob_signal = np.ma.array(img, mask=~np.ma.filled(signal_region, False), copy=True)
             glob_iterations = iterations_slider.value
             glob_lower_threshold = lower_threshold_slider.value
             glob_upper_threshold = upper_threshold_slider.value
@@ -1017,7 +1017,7 @@ def signal_to_noise_ratio(
             "sphere",
             "circle",
         }:
-            signal = np.ma.array(img, mask=~signal_region, copy=True)
+            signal = np.ma.array(img, mask=~np.ma.filled(signal_region, False), copy=True)
         elif region_type == "original":
             signal = img
 
-- 
2.43.0


From e65e87045ddd9fe1d7fe9569e2146b7c0115c459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:13 +0000
Subject: [PATCH 32/63] fix: keep SSIM variances of constant windows from
 becoming negative

---
 src/viqa/fr_metrics/ssim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/ssim.py b/src/viqa/fr_metrics/ssim.py
index 16c211e..3f987c0 100644
--- a/src/viqa/fr_metrics/ssim.py
+++ b/src/viqa/fr_metrics/ssim.py
@@ -381,13 +381,15 @@ def structural_similarity(
 
     del img_r, img_m
 
-    vx = cov_norm * (uxx - ux * ux)
+    # Rounding may push the variance of constant windows below zero
+    vx = np.maximum(cov_norm * (uxx - ux * ux), 0)
     del uxx
 
-    vy = cov_norm * (uyy - uy * uy)
+    vy = np.maximum(cov_norm * (uyy - uy * uy), 0)
     del uyy
 
     vxy = cov_norm * (uxy - ux * uy)
+    vxy[(vx == 0) | (vy == 0)] = 0  # Constant windows do not covary
     del uxy
 
     c_1 = (k_1 * data_range) ** 2
-- 
2.43.0


From 45a36e44e94d13fd5bc999c043334417e89beaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:25 +0000
Subject: [PATCH 33/63] fix: center the log-Gabor filters for images with odd
 extents

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index ed6a37c..33f5285 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -409,7 +409,7 @@ def gabor_convolve(
         # filtering
         for scale_n, _scale in enumerate(scales):  # for each scale
             # compute final filter
-            filter_ = fft.fftshift(radial_components[scale_n] * spread)
+            filter_ = fft.ifftshift(radial_components[scale_n] * spread)
             filter_[0, 0] = 0
 
             # apply filter
-- 
2.43.0


From addef0a7dba3c2173d90a5ef647a0a73524fe13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:41 +0000
Subject: [PATCH 34/63] fix: use derivative kernels along the diagonals in the
 2D GSM

---
 src/viqa/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/kernels.py b/src/viqa/kernels.py
index ed1df80..d7f199b 100644
--- a/src/viqa/kernels.py
+++ b/src/viqa/kernels.py
@@ -395,7 +395,7 @@ def gsm_kernel_2d_xy():
         [
             [0, 0, -1, 0, 0],
             [0, 0, -3, -8, 0],
-            [-1, -3, 0, 3, 1],
+            [1, 3, 0, -3, -1],
             [0, 8, 3, 0, 0],
             [0, 0, 1, 0, 0],
         ]
@@ -408,7 +408,7 @@ def gsm_kernel_2d_yx():
         [
             [0, 0, -1, 0, 0],
             [0, -8, -3, 0, 0],
-            [1, 3, 0, -3, -1],
+            [-1, -3, 0, 3, 1],
             [0, 0, 3, 8, 0],
             [0, 0, 1, 0, 0],
         ]
-- 
2.43.0


From e5be11ec79c18ab0c50b807843d97ed2133ea9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:07 +0000
Subject: [PATCH 35/63] fix: scale the GSM masking parameter by the largest
 gradient magnitude

---
 src/viqa/fr_metrics/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 201dac3..772e340 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -430,7 +430,7 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
 
     img_r_gradient = _to_float(img_r_gradient)
     img_m_gradient = _to_float(img_m_gradient)
-    k = c / max(np.max(img_r_gradient), np.max(img_m_gradient))
+    k = c / max(np.max(np.abs(img_r_gradient)), np.max(np.abs(img_m_gradient)))
     r = np.abs(img_r_gradient - img_m_gradient) / max(
         img_r_gradient, img_m_gradient, key=_mean_of_abs
     )
-- 
2.43.0


From d7cbcf2ebc006d3c28528e085c5ddc81fbf88ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:47 +0000
Subject: [PATCH 36/63] fix: score constant regions of float images as zero in
 CNR and SNR

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 16dfa36..3b05536 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -844,7 +844,7 @@ def contrast_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate CNR
-    if np.std(background) == 0:
+    if np.max(background) == np.min(background):
         cnr_val = 0
     else:
         cnr_val = (np.mean(signal) - np.mean(background)) / np.std(background)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 8771c12..ff17bf2 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1063,6 +1063,7 @@ def signal_to_noise_ratio(
                 raise ValueError("Region type not valid.")
 
         sdev = np.std(signal, axis=(0, 1))
+        sdev[np.max(signal, axis=(0, 1)) == np.min(signal, axis=(0, 1))] = 0
 
         if yuv:
             snr_val = [
@@ -1101,7 +1102,7 @@ def signal_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate SNR
-    if np.std(signal) == 0:
+    if np.max(signal) == np.min(signal):
         snr_val = 0
     else:
         snr_val = np.mean(signal) / np.std(signal)
-- 
2.43.0


From c4b32bb853a4116f806264f187d72e75aef35899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:44 +0000
Subject: [PATCH 37/63] fix: reject several axes with equal slice numbers in
 export_image

---
 src/viqa/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index b78165f..92ba64c 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -230,7 +230,7 @@ def export_image(
     elif img_r.ndim == 3:
         if {x, y, z} == {None}:
             raise ValueError("One axis must be specified")
-        if len({x, y, z} - {None}) != 1:
+        if (x, y, z).count(None) != 2:
             raise ValueError("Only one axis can be specified")
 
         # For 3D images, plot the specified area
-- 
2.43.0


From a9a526d3e539583d0d4495d8090394461d0a0cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:19 +0000
Subject: [PATCH 38/63] fix: write reduced projections to the working directory

---
 src/scripts/reduce_projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index 9d70a47..4958edc 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -63,7 +63,7 @@ def get_n_projections(slices, reducing_factor):
 def save_volume(output, vol, bitdepth):
     """Save the volume to a binary file."""
     output_folder = os.path.dirname(output)
-    if not os.path.exists(output_folder):
+    if output_folder and not os.path.exists(output_folder):
         os.makedirs(output_folder)
     data_type = _parse_bitdepth(bitdepth)
     vol = vol.astype(data_type)
-- 
2.43.0


From 84256bc54d8faba9f80aab439d9085ebe529f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:27 +0000
Subject: [PATCH 39/63] fix: reject slice numbers equal to the image extent in
 visualize_3d

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 567da92..d8e0502 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -674,7 +674,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     if img.ndim != 3:
         raise ValueError("The image must be 3D.")
     if not all(
-        -img.shape[i] <= slice_ <= img.shape[i] for i, slice_ in enumerate(slices)
+        -img.shape[i] <= slice_ < img.shape[i] for i, slice_ in enumerate(slices)
     ):
         raise ValueError("The slices are out of bounds.")
 
-- 
2.43.0


From 9c8daffdc43966ae89cc32daf62e16ecec98c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:27 +0000
Subject: [PATCH 40/63] fix: accept a signal array in SNR.visualize_centers

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index ff17bf2..4653308 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -237,7 +237,7 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        if signal is None:
             try:
                 signal = self._region
             except AttributeError:
-- 
2.43.0


From 738e1481e630a2149f056ae3e9e97ba68efad6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 41/63] fix: draw the 2D CNR and SNR regions on the pixels they
 cover

---
 src/viqa/utils/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index d8e0502..623364e 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -56,7 +56,7 @@ def _visualize_cnr_2d(
 
     fig, axs = plt.subplots(1, 2, figsize=figsize, dpi=dpi)
     fig.suptitle("Regions for CNR Calculation", y=0.92)
-    axs[0].imshow(img, cmap="gray")
+    axs[0].imshow(img.T, cmap="gray")
     axs[0].set_title("Background")
     axs[0].set_xlabel("x")
     axs[0].set_ylabel("y")
@@ -86,7 +86,7 @@ def _visualize_cnr_2d(
     if patch_1:
         axs[0].add_patch(patch_1)
 
-    axs[1].imshow(img[..., ::-1], cmap="gray")
+    axs[1].imshow(img.T, cmap="gray")
     axs[1].set_title("Signal")
     axs[1].set_xlabel("x")
     axs[1].set_ylabel("y")
@@ -372,10 +372,10 @@ def _visualize_snr_2d(
     fig, ax = plt.subplots(1, 1, figsize=figsize, dpi=dpi)
     fig.suptitle("Signal Region for SNR Calculation", y=0.92)
 
-    ax.imshow(img[..., ::-1], cmap="gray")
+    ax.imshow(img.T, cmap="gray")
 
     if region_type == "full":
-        ax.imshow(signal, cmap="viridis", alpha=0.5)
+        ax.imshow(signal.T, cmap="viridis", alpha=0.5)
 
     ax.set_xlabel("x")
     ax.set_ylabel("y")
-- 
2.43.0


From df7c38c60c71a33fc2c723000abde1794ea52789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:31 +0000
Subject: [PATCH 42/63] fix: visualize RGB images

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 623364e..f2ef75d 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -617,7 +617,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     -------
     None
     """
-    if img.ndim != 2:
+    if img.ndim != 2 and not (img.ndim == 3 and img.shape[-1] == 3):
         raise ValueError("The image must be 2D.")
 
     figsize = kwargs.pop("figsize", (6, 6))
-- 
2.43.0


From 8d7587169ec348f3f65edce99740031f9668dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 43/63] fix: hand single precision voxels in one order to the
 Q-Measure module

Double precision volumes were passed on unconverted although the native module
reads single precision values, and cropped or strided single precision volumes
were read as if they were contiguous.
---
 src/viqa/nr_metrics/qmeasure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/qmeasure.py b/src/viqa/nr_metrics/qmeasure.py
index 27602b3..df2ac56 100644
--- a/src/viqa/nr_metrics/qmeasure.py
+++ b/src/viqa/nr_metrics/qmeasure.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from viqa._metrics import NoReferenceMetricsInterface
 from viqa.nr_metrics.qmeasure_utils import qmeasurecalc
-from viqa.utils import _to_float
 
 
 class QMeasure(NoReferenceMetricsInterface):
@@ -139,8 +138,9 @@ class QMeasure(NoReferenceMetricsInterface):
                 RuntimeWarning,
             )
 
-        # Convert to float and get min and max values
-        img = _to_float(img, np.float32)
+        # Convert to float (the native module reads single precision values, x fastest)
+        # and get min and max values
+        img = np.asfortranarray(img, dtype=np.float32)
         img_min = int(img.min())
         img_max = int(img.max())
 
-- 
2.43.0


From 0d832daf5fdafd3ad9b1b289c293487535fe9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 44/63] fix: keep the values of interactive center panels apart

The current values were module globals: saving in one panel stored the values
last chosen in any other panel of the process.
---
 src/viqa/nr_metrics/cnr.py | 16 ++++++----------
 src/viqa/nr_metrics/snr.py | 33 ++++++++-------------------------
 2 files changed, 14 insertions(+), 35 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 3b05536..cd3731b 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -58,10 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_background_center = ()
-glob_radius = None
-
 FIGSIZE_CNR_2D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_2D)
 FIGSIZE_CNR_3D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_3D)
 
@@ -345,9 +341,11 @@ class CNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Current values of this panel
+        glob_signal_center = glob_background_center = glob_radius = None
+
+        # Define function to save current values to .parameters attribute
         def _save_values(_):
-            global glob_signal_center, glob_background_center, glob_radius
             self.parameters.update(
                 {
                     "signal_center": glob_signal_center,
@@ -356,10 +354,9 @@ class CNR(NoReferenceMetricsInterface):
                 }
             )
 
-        # Define function to save values to global variables
+        # Define function to set the current values
         def _write_values_to_global(signal_value, background_value, radius_value):
-            # Set global variables
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             glob_signal_center = signal_value
             glob_background_center = background_value
             glob_radius = radius_value
@@ -434,7 +431,6 @@ class CNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-        global glob_signal_center, glob_background_center, glob_radius
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if img.ndim != len(glob_signal_center) or img.ndim != len(
             glob_background_center
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4653308..b999373 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -58,14 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_radius = None
-glob_region_type = None
-glob_iterations = None
-glob_lower_threshold = None
-glob_upper_threshold = None
-glob_signal = None
-
 
 class SNR(NoReferenceMetricsInterface):
     """Class to calculate the signal-to-noise ratio (SNR) for an image.
@@ -407,16 +399,12 @@ class SNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Current values of this panel
+        glob_signal = glob_signal_center = glob_radius = glob_region_type = None
+        glob_iterations = glob_lower_threshold = glob_upper_threshold = None
+
+        # Define function to save current values to .parameters attribute
         def _save_values(_):
-            global \
-                glob_signal, \
-                glob_signal_center, \
-                glob_radius, \
-                glob_region_type, \
-                glob_iterations, \
-                glob_lower_threshold, \
-                glob_upper_threshold
             if glob_region_type == "full":
                 parameters = {
                     "region_type": glob_region_type,
@@ -458,8 +446,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Calculate region
         def _calculate_region(_):
-            global \
-                glob_region_type, \
+            nonlocal \
                 glob_signal, \
                 glob_iterations, \
                 glob_lower_threshold, \
@@ -485,10 +472,9 @@ class SNR(NoReferenceMetricsInterface):
             # TODO: Change to automatic visualization update
             dropdown_region_type.value = "full"
 
-        # Define function to save values to global variables
+        # Define function to set the current values
         def _write_values_to_global(signal_value, radius_value, region_type):
-            # Set global variables
-            global glob_signal_center, glob_radius, glob_region_type
+            nonlocal glob_signal_center, glob_radius, glob_region_type
             glob_signal_center = signal_value
             glob_radius = radius_value
             glob_region_type = region_type
@@ -506,7 +492,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_2d(
                 img=img,
                 signal_center=signal_center,
@@ -533,7 +518,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_3d(
                 img=img,
                 signal_center=signal_center,
@@ -595,7 +579,6 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global glob_signal_center, glob_radius, glob_region_type
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
             raise ValueError("Signal center has to be in the same dimension as img.")
-- 
2.43.0


From 50050ed905b680c82cd2cf0ecdce3e0f63825cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 45/63] fix: limit the radius slider to radii with a possible
 center

At the largest radius the limits of the center sliders crossed, so that moving
the radius slider there raised a TraitError.
---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index cd3731b..226a9b6 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -451,7 +451,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=min(img.shape) // 2 - 1,
             min=1,
             value=radius_start,
             description="Radius",
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index b999373..232fee1 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -612,7 +612,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=min(img.shape) // 2 - 1,
             min=1,
             value=radius_start,
             description="Radius",
-- 
2.43.0


From 434e4da2c37c1e94c0492b5631b356dc974e932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 46/63] fix: change the radius of 2D images in SNR.set_centers

The slider for z is None for 2D images, so that every change of the radius
raised an AttributeError and was not taken over.
---
 src/viqa/nr_metrics/snr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 232fee1..829bf30 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -648,11 +648,9 @@ class SNR(NoReferenceMetricsInterface):
             slider_signal_center_x.max = img.shape[0] - (change.new + 1)
             slider_signal_center_y.min = change.new + 1
             slider_signal_center_y.max = img.shape[1] - (change.new + 1)
-            try:
+            if slider_signal_center_z is not None:
                 slider_signal_center_z.min = change.new + 1
                 slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
-                pass
 
         slider_radius.observe(_update_values, "value")
 
-- 
2.43.0


From 87f02213d3b0b74c918867b4be39b7dadba0d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 47/63] fix: reopen SNR.set_centers with the default values

Parameters that do not apply to the chosen region type are stored as None and
were taken as starting points the next time.
---
 src/viqa/nr_metrics/snr.py | 57 ++++++++++----------------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 829bf30..fd6608b 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -533,49 +533,20 @@ class SNR(NoReferenceMetricsInterface):
 
         center_point = tuple(val // 2 for val in img.shape)
 
-        # Check if starting parameters are provided
-        if "signal_center" not in kwargs.keys():
-            try:
-                signal_start = self.parameters["signal_center"]
-            except KeyError:
-                signal_start = center_point
-        else:
-            signal_start = kwargs.pop("signal_center")
-        if "radius" not in kwargs.keys():
-            try:
-                radius_start = self.parameters["radius"]
-            except KeyError:
-                radius_start = 1
-        else:
-            radius_start = kwargs.pop("radius")
-        if "region_type" not in kwargs.keys():
-            try:
-                region_type_start = self.parameters["region_type"]
-            except KeyError:
-                region_type_start = "cubic"
-        else:
-            region_type_start = kwargs.pop("region_type")
-        if "iterations" not in kwargs.keys():
-            try:
-                iterations_start = self.parameters["iterations"]
-            except KeyError:
-                iterations_start = 2
-        else:
-            iterations_start = kwargs.pop("iterations")
-        if "lower_threshold" not in kwargs.keys():
-            try:
-                lower_threshold_start = self.parameters["lower_threshold"]
-            except KeyError:
-                lower_threshold_start = 90
-        else:
-            lower_threshold_start = kwargs.pop("lower_threshold")
-        if "upper_threshold" not in kwargs.keys():
-            try:
-                upper_threshold_start = self.parameters["upper_threshold"]
-            except KeyError:
-                upper_threshold_start = 99
-        else:
-            upper_threshold_start = kwargs.pop("upper_threshold")
+        # Starting points are the given parameters, the ones stored in the metric or
+        # default values
+        def _start_value(name, default):
+            value = kwargs.pop(name, None)
+            if value is None:
+                value = self.parameters.get(name)
+            return default if value is None else value
+
+        signal_start = _start_value("signal_center", center_point)
+        radius_start = _start_value("radius", 1)
+        region_type_start = _start_value("region_type", "cubic")
+        iterations_start = _start_value("iterations", 2)
+        lower_threshold_start = _start_value("lower_threshold", 90)
+        upper_threshold_start = _start_value("upper_threshold", 99)
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-- 
2.43.0


From ea5ed9021149054f4b5a88ba0ff5c839c10a30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 48/63] fix: calculate the full region in SNR.set_centers

The button calculated the region of the type chosen before but showed and stored
it as full region.
---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index fd6608b..f188299 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -461,7 +461,7 @@ class SNR(NoReferenceMetricsInterface):
 
             _, _, signal_region = find_largest_region(
                 img=binary_foreground,
-                region_type=glob_region_type,
+                region_type="full",
                 iterations=iterations_slider.value,
             )
 
-- 
2.43.0


From b81b7f88aff9159be43b3b7538131b10298a6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 49/63] fix: accept starting points in CNR.set_centers when
 parameters are stored

The unused starting points were passed on to the plot function a second time.
---
 src/viqa/nr_metrics/cnr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 226a9b6..971f742 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -418,16 +418,15 @@ class CNR(NoReferenceMetricsInterface):
 
         center_point = tuple(val // 2 for val in img.shape)
         # Check if background_center and signal_center are provided
+        background_start = kwargs.pop("background_center", center_point)
+        signal_start = kwargs.pop("signal_center", center_point)
+        radius_start = kwargs.pop("radius", 1)
         if {"background_center", "signal_center", "radius"}.issubset(
             self.parameters.keys()
         ):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
-        else:
-            background_start = kwargs.pop("background_center", center_point)
-            signal_start = kwargs.pop("signal_center", center_point)
-            radius_start = kwargs.pop("radius", 1)
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-- 
2.43.0


From afaae90bfb95d6dd9a5734991850c6e75949ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:06 +0000
Subject: [PATCH 50/63] fix: accept figsize in CNR.set_centers

---
 src/viqa/nr_metrics/cnr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 971f742..83807e7 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -333,7 +333,9 @@ class CNR(NoReferenceMetricsInterface):
 
         # Define output layout
         def _output_layout(out, figsize_variable):
-            figsize = kwargs.get("figsize", figsize_variable)
+            figsize = figsize_variable
+            if "figsize" in kwargs:
+                figsize = tuple(f"{val}in" for val in kwargs["figsize"])
             width = figsize[0]
             height = figsize[1]
             out.layout = {
-- 
2.43.0


From f175aabb8f46e296d92429b59bc2202c00007305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:39 +0000
Subject: [PATCH 51/63] fix: give constant blocks zero statistics in
 statisticscalc

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 5e1106b..98dad4f 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -55,7 +55,7 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *matout, *tmp;
     double **cin, **cout, **tmp_data, mean, stdev, val;
-    int iblocksize, istride, i, j, u, v, n, m;
+    int iblocksize, istride, i, j, u, v, n, m, constant;
     npy_intp dims[2];
 
     // Parse input arguments
@@ -83,12 +83,15 @@ static PyObject
         for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
+            constant = 1;
             for (u = i; u < i+iblocksize; u++) {
                 for (v = j; v < j+iblocksize; v++) {
                     mean += cin[u][v];
+                    constant = constant && cin[u][v] == cin[i][j];
                 }
             }
             mean /= pow(iblocksize, 2);
+            if (constant) mean = cin[i][j]; // The sum of equal values may be rounded
 
             // Calculate the standard deviation for each block
             stdev = 0;
@@ -149,7 +152,7 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *stdevout, *skwout, *krtout;
     double **cin, **stdev_data, **skw_data, **krt_data, tmp, stmp, mean, stdev, krt, skw;
-    int iblocksize, istride, i, j, u, v, n, m;
+    int iblocksize, istride, i, j, u, v, n, m, constant;
     npy_intp dims[2];
 
     // Parse input arguments
@@ -180,12 +183,15 @@ static PyObject
         for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
+            constant = 1;
             for (u=i; u<i+iblocksize; u++) {
                 for (v=j; v<j+iblocksize; v++) {
                     mean += cin[u][v];
+                    constant = constant && cin[u][v] == cin[i][j];
                 }
             }
             mean /= pow((iblocksize), 2);
+            if (constant) mean = cin[i][j]; // The sum of equal values may be rounded
 
             // Calculate the standard deviation, skewness and kurtosis for each block
             stdev = 0;
-- 
2.43.0


From 80e59e2e3f8e9931ff50bd0e2680b441237874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:17 +0000
Subject: [PATCH 52/63] fix: keep the block size and stride of MAD local to
 each call

Module level variables let concurrent MAD calls use each other's image
size, block size and stride, giving wrong scores or errors.
---
 src/viqa/fr_metrics/mad.py | 75 ++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index b594749..c5593d7 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,17 +487,13 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
-    M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
-    if block_size > M or block_size > N:
+    m, n = img_r.shape
+    if block_size > m or block_size > n:
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
-        BLOCK_SIZE = block_size
         if block_overlap >= 1 or block_overlap < 0:
             raise ValueError("block_overlap must be between 0 and smaller than 1.")
-        STRIDE = BLOCK_SIZE - int(block_overlap * BLOCK_SIZE)
+        stride = block_size - int(block_overlap * block_size)
     else:
         raise ValueError("block_size must be positive.")
 
@@ -524,9 +514,11 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r, img_m, block_size, stride, data_range=data_range, **kwargs
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(img_r, img_m, block_size, stride, **kwargs)
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -534,7 +526,14 @@ def most_apparent_distortion(
     return mad_index
 
 
-def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _high_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    block_size: int = 16,
+    stride: int = 4,
+    /,
+    **kwargs,
+) -> float:
     """Calculate the high-quality index of MAD.
 
     Notes
@@ -588,8 +587,7 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     csf_function = kwargs.pop("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909})
     # Calculate contrast sensitivity function
     csf = _contrast_sensitivity_function(
-        M,
-        N,
+        *img_r.shape,
         cycles_per_degree,
         lambda_csf=csf_function["lambda_csf"],
         f_peak=csf_function["f_peak"],
@@ -631,25 +629,25 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     #     dtype=np.float32,
     #     count=-1
     # )
-    i_org_blocks = _extract_blocks(i_org, block_size=BLOCK_SIZE, stride=STRIDE)
-    i_err_blocks = _extract_blocks(i_err, block_size=BLOCK_SIZE, stride=STRIDE)
+    i_org_blocks = _extract_blocks(i_org, block_size=block_size, stride=stride)
+    i_err_blocks = _extract_blocks(i_err, block_size=block_size, stride=stride)
 
     # Calculate local statistics
     mu_org_p = np.mean(i_org_blocks, axis=(1, 2))
     std_err_p = np.std(i_err_blocks, axis=(1, 2), ddof=1)
 
-    # std_org = _min_std(i_org, block_size=BLOCK_SIZE, stride=STRIDE)  # Legacy function
-    std_org = statisticscalc.minstd(i_org, BLOCK_SIZE, STRIDE)
+    # std_org = _min_std(i_org, block_size=block_size, stride=stride)  # Legacy function
+    std_org = statisticscalc.minstd(i_org, block_size, stride)
 
     mu_org = np.zeros(i_org.shape)
     std_err = np.zeros(i_err.shape)
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
-        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
-            mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
-            std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
+    for x in range(0, i_org.shape[0] - (block_size - 1), stride):
+        for y in range(0, i_org.shape[1] - (block_size - 1), stride):
+            mu_org[x : x + stride, y : y + stride] = mu_org_p[block_n]
+            std_err[x : x + stride, y : y + stride] = std_err_p[block_n]
             block_n += 1
     del mu_org_p, std_err_p  # free memory
 
@@ -688,12 +686,12 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     msk /= ms_scale
 
     # Use lum_mse and weight by distortion mask
-    win = np.ones((BLOCK_SIZE, BLOCK_SIZE)) / BLOCK_SIZE**2
+    win = np.ones((block_size, block_size)) / block_size**2
     lum_mse = convolve((_to_float(img_r) - _to_float(img_m)) ** 2, win, mode="reflect")
 
     # Kill the edges
     mp = msk * lum_mse
-    mp2 = mp[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = mp[block_size:-block_size, block_size:-block_size]
 
     # Calculate high quality index by using the 2-norm
     d_detect = (
@@ -702,7 +700,14 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     return d_detect
 
 
-def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
+def _low_quality(
+    img_r: np.ndarray,
+    img_m: np.ndarray,
+    block_size: int = 16,
+    stride: int = 4,
+    /,
+    **kwargs,
+) -> float:
     """Calculate the low-quality index of MAD.
 
     Notes
@@ -765,7 +770,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     )
 
     # Calculate statistics for each filterband
-    stats = np.zeros((M, N))
+    stats = np.zeros(img_r.shape)
     for scale_n in range(scales_num):
         for orientation_n in range(orientations_num):
             # Legacy function
@@ -782,13 +787,13 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
             std_ref, skw_ref, krt_ref = statisticscalc.getstatistics(
                 np.abs(gabor_org[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             std_dst, skw_dst, krt_dst = statisticscalc.getstatistics(
                 np.abs(gabor_dst[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             # Combine statistics
             stats += weights[scale_n] * (
@@ -798,7 +803,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
             )
 
     # Kill the edges
-    mp2 = stats[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = stats[block_size:-block_size, block_size:-block_size]
 
     # Calculate low quality index by using the 2-norm
     d_appear = np.linalg.norm(mp2) / np.sqrt(np.prod(mp2.shape))
-- 
2.43.0


From dc4fe8ede90a42ec763433eb55c479f7fb567fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 53/63] fix: accept volumes with less than three slices in the
 region functions

_to_cubic, _to_spherical and find_largest_region rejected volumes with
one or two slices as being neither 2D nor 3D.
---
 src/viqa/utils/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 33f5285..58f9ec3 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -484,7 +484,7 @@ def _get_binary(img, lower_threshold, upper_threshold, show=False):
     if show:
         if img.ndim == 2:  # 2D image
             visualize_2d(binary_image)
-        elif img.ndim == 3 and img.shape[-1] > 3:  # 3D image
+        elif img.ndim == 3:  # 3D image
             visualize_3d(binary_image, [img.shape[dim] // 2 for dim in range(3)])
         else:
             raise ValueError("Image must be 2D or 3D to visualize.")
@@ -553,7 +553,7 @@ def find_largest_region(img, iterations=5, region_type="cubic"):
         struct = struct_2d
     elif img.ndim == 3 and img.shape[-1] == 3:  # 2D color image
         struct = struct_2d
-    elif img.ndim == 3 and img.shape[-1] > 3:  # 3D image
+    elif img.ndim == 3:  # 3D image
         struct = struct_3d
     else:
         raise ValueError("Image must be 2D or 3D.")
@@ -599,7 +599,7 @@ def _to_spherical(img, center, radius):
 
         if img.ndim == 3:  # 2D color image
             mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
-    elif img.ndim == 3 and img.shape[-1] > 3:
+    elif img.ndim == 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
         x, y, z = np.ogrid[
@@ -624,7 +624,7 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-    elif img.ndim == 3 and img.shape[-1] > 3:
+    elif img.ndim == 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
         mask[
-- 
2.43.0


From a41078aea7825ddc74002e88ea250691f06da0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 54/63] fix: do not take a 2D image of width three for an RGB
 image in SNR and the region plots

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 83807e7..d9b8ddd 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -216,7 +216,7 @@ class CNR(NoReferenceMetricsInterface):
             radius = self.parameters["radius"]
 
         # Check if img and signal_center have the same dimension
-        if img.shape[-1] == 3:
+        if img.ndim == 3 and img.shape[-1] == 3:
             if (
                 img.ndim != len(signal_center) + 1
                 or img.ndim != len(background_center) + 1
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index f188299..5c6d0d6 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -252,7 +252,7 @@ class SNR(NoReferenceMetricsInterface):
                     raise ValueError("No radius provided.")
 
             # Check if img and signal_center have the same dimension
-            if img.shape[-1] == 3:
+            if img.ndim == 3 and img.shape[-1] == 3:
                 if img.ndim != len(signal_center) + 1:
                     raise ValueError("Center has to be in the same dimension as img.")
             else:
@@ -986,7 +986,7 @@ def signal_to_noise_ratio(
         raise TypeError("Radius has to be a positive integer.")
 
     # Check if img and signal_center have the same dimension
-    if img.shape[-1] == 3:
+    if img.ndim == 3 and img.shape[-1] == 3:
         if img.ndim != len(signal_center) + 1:
             raise ValueError("Center has to be in the same dimension as img.")
     else:
-- 
2.43.0


From 4f11d3234ce748927a3c21eab8cb71e4044c6602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:41 +0000
Subject: [PATCH 55/63] fix: read mhd volumes in the byte order given in the
 header

---
 src/viqa/utils/loading.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 13f294d..bfc3faa 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -467,6 +467,15 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
             "Bit depth not supported"
         )  # Raise exception if the bit depth is not supported
 
+    # Data is stored in big endian byte order if the header says so
+    if "True" in (
+        file_header.get("ElementByteOrderMSB"),
+        file_header.get("BinaryDataByteOrderMSB"),
+    ):
+        stored_type = np.dtype(data_type).newbyteorder(">")
+        img_arr = _load_binary(data_file_path, stored_type, dim_size)
+        return img_arr.astype(data_type)
+
     img_arr = _load_binary(data_file_path, data_type, dim_size)
     return img_arr
 
-- 
2.43.0


From b4608f383bc7000db587a47e9306b29451a14267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 56/63] fix: map the maximum exactly to the upper end of the
 data range when normalizing

---
 src/viqa/utils/loading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index bfc3faa..a38d88c 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -874,11 +874,13 @@ def normalize_data(
                 img_min = data_range_input[0]
                 img_max = data_range_input[1]
         # Normalize numpy array
+        is_max = img == img_max
         img = (
             (img - img_min)
             * (data_range_output[1] - data_range_output[0])
             / (img_max - img_min)
         ) + data_range_output[0]
+        img[is_max] = data_range_output[1]  # Avoid truncation of rounding errors
 
         # Change data type
         # If data range is 255 (8 bit)
-- 
2.43.0


From 18563774ce5053e40e98a276686374efd74aa975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 57/63] fix: pass the additional parameters of
 BatchMetrics.report to export_image

---
 src/viqa/multiple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 93b319c..b05130f 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -388,6 +388,7 @@ class BatchMetrics(_MultipleInterface):
                     y=y,
                     z=z,
                     roi=roi,
+                    **kwargs,
                 )
 
     def export_results(self, file_path=".", file_name="results.csv"):
-- 
2.43.0


From a2f61d99329bb7d23d6b3767545a86784bf4b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:58 +0000
Subject: [PATCH 58/63] fix: find files in folders whose names contain glob
 characters in the scripts

---
 src/scripts/combine_stack.py | 2 +-
 src/scripts/write_to_csv.py  | 4 ++--
 src/scripts/write_to_mat.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index 34f0a5d..e0c41ea 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,7 +27,7 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
+    files = sorted(glob.glob(os.path.join(glob.escape(input_path), f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1f02dd2..195e251 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -70,8 +70,8 @@ if __name__ == "__main__":
             )
         else:
             copy = False
-        path_modified = os.path.join(path_modified, "*")
-        path_reference = os.path.join(path_reference, "*")
+        path_modified = os.path.join(glob.escape(path_modified), "*")
+        path_reference = os.path.join(glob.escape(path_reference), "*")
         write_to_csv(path_modified, path_reference, path_csv, copy=copy)
         print("Done!")
     else:
diff --git a/src/scripts/write_to_mat.py b/src/scripts/write_to_mat.py
index 1993591..8ddfe14 100644
--- a/src/scripts/write_to_mat.py
+++ b/src/scripts/write_to_mat.py
@@ -29,7 +29,7 @@ import viqa
 def write_to_mat(data_dir, filename="volume.mhd"):
     """Write the images in the data directory to .mat files."""
     # Get subfolders of the data directory
-    subfolders = glob.glob(os.path.join(data_dir, "*"))
+    subfolders = glob.glob(os.path.join(glob.escape(data_dir), "*"))
 
     counter = 0
     for subfolder in tqdm(subfolders):
-- 
2.43.0


From 14e2e623a2ce7b4ddbae96bb6d6689807a947a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 59/63] fix: report write errors of the volume scripts

---
 src/scripts/combine_stack.py      | 14 +++++++-------
 src/scripts/crop_image.py         |  7 ++++---
 src/scripts/reduce_projections.py |  7 ++++---
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index e0c41ea..85b6d0c 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -46,14 +46,14 @@ def save_volume(output_path, vol, bitdepth, file_type="raw"):
     if not os.path.exists(output_path):
         os.makedirs(output_path)
     vol_shape = vol.shape
-    vol = vol.astype(data_type)
-    # save volume
-    vol.tofile(
-        os.path.join(
-            output_path,
-            f"volume_{vol_shape[2]}x{vol_shape[1]}x{vol_shape[0]}_{bitdepth}.{file_type}",
-        )
+    vol = vol.astype(data_type, order="C")
+    # save volume (closing the file reports write errors that tofile does not)
+    output = os.path.join(
+        output_path,
+        f"volume_{vol_shape[2]}x{vol_shape[1]}x{vol_shape[0]}_{bitdepth}.{file_type}",
     )
+    with open(output, mode="wb") as f:
+        f.write(vol.data)
 
 
 if __name__ == "__main__":
diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 24518cc..1914550 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -77,9 +77,10 @@ def save_volume(output_folder, file_name, volume, bitdepth):
     file_name = "crop_" + file_name
     output = os.path.join(output_folder, file_name)
     data_type = _parse_bitdepth(bitdepth)
-    volume = volume.astype(data_type)
-    # save volume
-    volume.tofile(output)
+    volume = volume.astype(data_type, order="C")
+    # save volume (closing the file reports write errors that tofile does not)
+    with open(output, mode="wb") as f:
+        f.write(volume.data)
 
 
 if __name__ == "__main__":
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index 4958edc..67ef770 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -66,9 +66,10 @@ def save_volume(output, vol, bitdepth):
     if output_folder and not os.path.exists(output_folder):
         os.makedirs(output_folder)
     data_type = _parse_bitdepth(bitdepth)
-    vol = vol.astype(data_type)
-    # save volume
-    vol.tofile(output)
+    vol = vol.astype(data_type, order="C")
+    # save volume (closing the file reports write errors that tofile does not)
+    with open(output, mode="wb") as f:
+        f.write(vol.data)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 919b89963a4e2c1212be9796c4ec75e1ce7b0bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 60/63] fix: give unpickled ImageArrays their statistics
 attributes

---
 src/viqa/utils/loading.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index a38d88c..b980bbd 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -126,9 +126,7 @@ class ImageArray(np.ndarray):
         obj : object
             Object to finalize
         """
-        if obj is None:
-            return
-        # Add attributes
+        # Add attributes (obj is None for explicit construction, e.g. unpickling)
         self.mean_value = getattr(
             obj, "mean_value", "Not set. Run calculate_statistics() first."
         )
-- 
2.43.0


From f026ed704cdb34a1485fdb03b2642b02f3ff0fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 61/63] fix: do not map NIfTI files, a loaded image changed
 with its file

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index b980bbd..701dc87 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -591,7 +591,7 @@ def load_nifti(file_path: str | os.PathLike) -> np.ndarray:
     -----
     This function wraps the nibabel function :py:func:`nibabel.loadsave.load`.
     """
-    img = nib.load(file_path)
+    img = nib.load(file_path, mmap=False)  # a mapped image changes with the file
     img_arr = img.get_fdata()  # type: ignore[attr-defined]
     return img_arr
 
-- 
2.43.0


From dd56bff31d9b563b2acc2d302f8c8f09cf0c8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 62/63] fix: save figures before showing them, the exported
 file was empty

---
 src/viqa/utils/visualization.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index f2ef75d..0352fc2 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -116,10 +116,11 @@ def _visualize_cnr_2d(
     if patch_2:
         axs[1].add_patch(patch_2)
 
-    if show:
-        plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_cnr_3d(
@@ -333,10 +334,11 @@ def _visualize_cnr_3d(
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-    if show:
-        plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_2d(
@@ -407,10 +409,11 @@ def _visualize_snr_2d(
     if patch:
         ax.add_patch(patch)
 
-    if show:
-        plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_3d(
@@ -566,10 +569,11 @@ def _visualize_snr_3d(
     if patch_3:
         axs[2].add_patch(patch_3)
 
-    if show:
-        plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _create_slider_widget(**kwargs):
@@ -631,9 +635,10 @@ def visualize_2d(img, export_path=None, **kwargs):
     plt.xlabel("x")
     plt.ylabel("y")
     plt.gca().invert_yaxis()
-    plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
 
 
 def visualize_3d(img, slices, export_path=None, **kwargs):
@@ -711,6 +716,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     axs[2].axvline(x=x, color="#1b9e77", linestyle="--")
     axs[2].set_title(f"z-axis, slice: {z}", c="#7570b3")
 
-    plt.show()
+    # Save before showing, which may close the figure
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
-- 
2.43.0


From 17a07d184df3530b25efb6bcd756b1dc41ec1a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 63/63] fix: close figures that are saved without being shown

---
 src/viqa/utils/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 92ba64c..8e9f3bb 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -315,5 +315,7 @@ def export_image(
         plt.savefig(file_path, bbox_inches="tight", pad_inches=0.5)
         if show_image:
             plt.show()
+        else:
+            plt.close(fig)
     else:
         plt.show()
-- 
2.43.0

