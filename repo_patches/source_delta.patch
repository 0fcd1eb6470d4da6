From 98511444dd6c6ccd78981b371e93b79025c5eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 01/84] fix: save_image_multiple no longer reuses file names
 for index >= 100000

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..1110ca7 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1274,7 +1274,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [(list_path + "/img_" + f"{i:05d}" + ".tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
-- 
2.43.0


From 7eb45500822194b5f069afc0e2e567c657482550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 02/84] fix: save_image keeps pixel values for upper-case tif
 extensions

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 1110ca7..81ae043 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -399,7 +399,7 @@ def save_image(file_path, mat, overwrite=True):
     """
     file_path = __get_path(file_path, check_exist=False)
     file_path = file_path.resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         mat = np.uint8(
             255.0 * (mat - np.min(mat)) / (np.max(mat) - np.min(mat)))
-- 
2.43.0


From bccad9136ebdbc8e5725c8c0fb84fb0ee18ea0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 03/84] fix: extract_tif_from_hdf extracts the requested image
 for a negative index and refuses an out-of-range one

---
 algotom/io/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..bb3b5c2 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -117,6 +117,11 @@ def extract_tif_from_hdf(input_path, output_path, key_path, index=(0, -1, 1),
     if isinstance(index, tuple):
         start, stop, step = index
     else:
+        num_img = data.shape[axis] if axis in (1, 2) else depth
+        if index < -num_img or index >= num_img:
+            raise ValueError("Index {0} is out of range for {1} images along "
+                             "axis {2} !!!".format(index, num_img, axis))
+        index = index % num_img
         start, stop, step = index, index + 1, 1
     cr_top, cr_bottom, cr_left, cr_right = crop
     if axis == 1:
-- 
2.43.0


From 5c9bc50e4f2d099c38ff0f8b0929ae9e6979788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 04/84] fix: HdfEmulatorFromTif finds files with upper-case tif
 extension

---
 algotom/io/converter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index bb3b5c2..b4a4898 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -172,11 +172,13 @@ class HdfEmulatorFromTif:
     >>> image_stack = hdf_emulator[:, 0:4, :]
     """
     def __init__(self, folder_path, ncore=1):
-        self.files = losa.find_file(folder_path + "/*tif*")
-        if len(self.files) == 0:
-            files = losa.find_file(folder_path + "/*TIF*")
-        if len(self.files) == 0:
-            raise ValueError(f"!!! No tif files found in: {folder_path}")
+        try:
+            self.files = losa.find_file(folder_path + "/*tif*")
+        except FileNotFoundError:
+            try:
+                self.files = losa.find_file(folder_path + "/*TIF*")
+            except FileNotFoundError:
+                raise ValueError(f"!!! No tif files found in: {folder_path}")
         self.n_jobs = ncore
         self._shape, self._dtype = self._get_shape_and_dtype()
 
-- 
2.43.0


From 35a37d74ddc74101cf61bfacf801aea736059c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 05/84] fix: 2D flat/dark fields with three rows are not
 averaged as a stack

---
 algotom/io/loadersaver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 81ae043..f9a3487 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -880,7 +880,8 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        flat_field = np.asarray(flat_field)
+        if flat_field.ndim == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -889,7 +890,8 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        dark_field = np.asarray(dark_field)
+        if dark_field.ndim == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From 94350aced46fc2a976fc602a7905bbd638e23c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 06/84] fix: unsigned-integer flat/dark fields no longer wrap
 around in the loaders

---
 algotom/io/loadersaver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index f9a3487..943f717 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -680,6 +680,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "({0}, {1})".format(height, width))
         else:
             flat_ave = flat_field[top: bot, left:right]
+            flat_ave = flat_ave.astype(np.result_type(flat_ave, np.float32))
     else:
         flat_ave = np.ones((height1, width1), dtype=np.float32)
     if dark_field is not None:
@@ -689,6 +690,7 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
                              "({0}, {1})".format(height, width))
         else:
             dark_ave = dark_field[top: bot, left:right]
+            dark_ave = dark_ave.astype(np.result_type(dark_ave, np.float32))
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
@@ -881,6 +883,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     """
     if flat_field is not None:
         flat_field = np.asarray(flat_field)
+        flat_field = flat_field.astype(np.result_type(flat_field, np.float32))
         if flat_field.ndim == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
@@ -891,6 +894,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
         flat_field = np.ones((height, width))
     if dark_field is not None:
         dark_field = np.asarray(dark_field)
+        dark_field = dark_field.astype(np.result_type(dark_field, np.float32))
         if dark_field.ndim == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
-- 
2.43.0


From a46668139ebc0666025b2ca90ccb74b8e75f46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 07/84] fix: DLS loader accepts a single sample, reference or
 dark frame

---
 algotom/io/loadersaver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 943f717..8261567 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -836,7 +836,7 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                                          "".format(num_img))
             list_tmp = np.where(int_keys == 0.0)[0]
             if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+                list_idx = np.sort(np.int32(np.atleast_1d(list_tmp)))
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
@@ -844,11 +844,11 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
             list_tmp = np.where(int_keys == 1.0)[0]
             if len(list_tmp) != 0:
                 list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                    np.sort(np.int32(np.atleast_1d(list_tmp))))
             list_tmp = np.where(int_keys == 2.0)[0]
             if len(list_tmp) != 0:
                 list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+                    np.sort(np.int32(np.atleast_1d(list_tmp))))
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
-- 
2.43.0


From fb25bd87a5c9cc0ea9f1ac3b00a1a8af31825668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 08/84] fix: DLS loader averages only the flagged reference and
 dark frames

---
 algotom/io/loadersaver.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 8261567..99b47b9 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -694,10 +694,9 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
     for i in range(num_img):
         if dark_field is None:
             if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
@@ -705,10 +704,8 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
         if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right], axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
-- 
2.43.0


From 6ada993ad325ee996634a638da3406dd3c051227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/84] fix: unwarp_sinogram_chunk loads all the rows it
 interpolates from

---
 algotom/prep/correction.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..06a1d97 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -266,26 +266,16 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
     if stop_index == -1:
         stop_index = height
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    yd_min = np.int16(np.floor(np.amin(yd_mat)))
+    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, yd_min:yd_max, :], xd_mat, yd_mat) for i in
          list_idx])
-- 
2.43.0


From 788a797643990c5656bc07634886015cdf17304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 10/84] fix: stitching weights of integer images are not
 truncated

---
 algotom/prep/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..beacc07 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -58,8 +58,8 @@ def make_weight_matrix(mat1, mat2, overlap, side):
         to the right side.
     """
     overlap = int(np.floor(overlap))
-    wei_mat1 = np.ones_like(mat1)
-    wei_mat2 = np.ones_like(mat2)
+    wei_mat1 = np.ones_like(mat1, dtype=np.float32)
+    wei_mat2 = np.ones_like(mat2, dtype=np.float32)
     if side == 1:
         list_down = np.linspace(1.0, 0.0, overlap)
         list_up = 1.0 - list_down
-- 
2.43.0


From 35a44ef020ba4f64dfc53d730136cf531759cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/84] fix: stitch_image shares the sub-pixel part of the
 overlap between the images

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index beacc07..ceab15e 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -107,7 +107,7 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From 4344c7479fc8404180d8434f3ba9369e0d49cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/84] fix: join_image applies the sub-pixel part of the gap
 in the right direction

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index ceab15e..a454d04 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -174,7 +174,7 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     joint_int = int(np.round(joint_width + 1.0e-3))
-    sub_pixel = joint_width - joint_int
+    sub_pixel = 0.5 * (joint_int - joint_width)
     side = int(side)
     if sub_pixel != 0.0:
         if side == 1:
-- 
2.43.0


From d8c110f9ee7dc9b70c4091ff91c8bcecb77b3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 13/84] fix: extend_sinogram shifts to the rotation centre it
 returns

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index a454d04..9d638d6 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -433,7 +433,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
             overlap = 2 * (ncol - cor) - 1
             side = 1
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if side == 1:
         if sub_pixel != 0.0:
             sino_360 = shift(sino_360, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From 64db0f3cb897022f4579fd2ddd98c1b57f281ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 14/84] fix: extend_sinogram weights integer sinograms without
 truncation

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 9d638d6..c548c6c 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -420,7 +420,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     if apply_log is True:
         sino_360 = -np.log(sino_360)
     else:
-        sino_360 = np.copy(sino_360)
+        sino_360 = sino_360.astype(np.result_type(sino_360, np.float32))
     (nrow, ncol) = sino_360.shape
     xcenter = (ncol - 1.0) * 0.5
     if isinstance(cor, tuple):
-- 
2.43.0


From c18ae9a41caed20b6de0045eb730e73522afbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 15/84] fix: sub-pixel stitching/joining of integer images
 interpolates in floating point

---
 algotom/prep/conversion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index c548c6c..dbecf1f 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -110,11 +110,11 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
         if side == 1:
-            mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
+            mat1 = shift(np.float32(mat1), (0, sub_pixel), mode='nearest')
+            mat2 = shift(np.float32(mat2), (0, -sub_pixel), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, -sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, sub_pixel), mode='nearest')
+            mat1 = shift(np.float32(mat1), (0, -sub_pixel), mode='nearest')
+            mat2 = shift(np.float32(mat2), (0, sub_pixel), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     if (wei_mat1 is None) or (wei_mat2 is None):
@@ -178,11 +178,11 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     side = int(side)
     if sub_pixel != 0.0:
         if side == 1:
-            mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
+            mat1 = shift(np.float32(mat1), (0, sub_pixel), mode='nearest')
+            mat2 = shift(np.float32(mat2), (0, -sub_pixel), mode='nearest')
         else:
-            mat1 = shift(mat1, (0, -sub_pixel), mode='nearest')
-            mat2 = shift(mat2, (0, sub_pixel), mode='nearest')
+            mat1 = shift(np.float32(mat1), (0, -sub_pixel), mode='nearest')
+            mat2 = shift(np.float32(mat2), (0, sub_pixel), mode='nearest')
     if nrow1 != nrow2:
         raise ValueError("Two images are not at the same height!!!")
     total_width0 = ncol1 + ncol2 + joint_int
-- 
2.43.0


From b5320f835a9298f71b9d4ec5887f54090194f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 16/84] fix: full helical sinogram only requests rows inside
 the field of view

---
 algotom/prep/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index dbecf1f..4cd7bfe 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -650,7 +650,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     else:
         y_e = y_stop - pitch
         y_s = y_start + pitch
-    num_proj_used = int(np.floor(fov / y_step)) - 1
+    num_proj_used = int(np.floor((fov - pixel_size) / y_step))
     y_pos = (index - 1) * pixel_size + y_s
     i0 = int(np.ceil((y_e - y_pos) / y_step))
     if (i0 < 0) or (i0 >= depth0):
-- 
2.43.0


From 170a390bc760e1f45c03377a9c71bbe44c8455be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 17/84] fix: unsigned-integer flat/dark fields no longer wrap
 around in helical sinograms

---
 algotom/prep/conversion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 4cd7bfe..f378aa7 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -529,6 +529,8 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    flat = np.float32(flat)
+    dark = np.float32(dark)
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
@@ -641,6 +643,8 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    flat = np.float32(flat)
+    dark = np.float32(dark)
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
-- 
2.43.0


From 146f66f00049285cf532068ff49d9ab4ea24f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 18/84] fix: find_overlap uses the window that was actually
 searched

---
 algotom/prep/calculation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..4d5c3a3 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -591,14 +591,14 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = ncol1 - overlap_position + win_width // 2
+        overlap = ncol1 - overlap_position + offset
     elif side == 0:
         (list_metric, offset) = search_overlap(mat1, mat2, win_width, side,
                                                denoise, norm, use_overlap,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = overlap_position + win_width // 2
+        overlap = overlap_position + offset
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
                                                  norm, denoise, use_overlap,
@@ -613,11 +613,11 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         if curvature1 > curvature2:
             side = 1
             overlap_position = overlap_position1
-            overlap = ncol1 - overlap_position + win_width // 2
+            overlap = ncol1 - overlap_position + offset1
         else:
             side = 0
             overlap_position = overlap_position2
-            overlap = overlap_position + win_width // 2
+            overlap = overlap_position + offset2
     return overlap, side, overlap_position
 
 
-- 
2.43.0


From 7d8e558cca3a50a7fabe1d193684ba0a6afefbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 19/84] fix: find_center_projection returns the centre without
 a half-pixel bias

---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 4d5c3a3..0dfb7e1 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -895,9 +895,9 @@ def find_center_projection(mat1, mat2, flip=True, win_width=None,
                                       denoise=denoise, norm=norm,
                                       use_overlap=use_overlap, ncore=ncore)
     if side == 0:
-        cor = overlap / 2.0 - 1.0
+        cor = overlap / 2.0 - 0.5
     else:
-        cor = ncol - overlap / 2.0 - 1.0
+        cor = ncol - overlap / 2.0 - 0.5
     return cor
 
 
-- 
2.43.0


From 23263b819118f657887ec9cfa6dd1e1c26f2082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 20/84] fix: overlap search reports a best match at the end of
 the search range

---
 algotom/prep/calculation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 0dfb7e1..1315ce4 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -387,17 +387,18 @@ def calculate_curvature(list_metric):
     """
     radi = 2
     num_metric = len(list_metric)
-    min_pos = np.clip(
-        np.argmin(list_metric), radi, num_metric - radi - 1)
-    list1 = list_metric[min_pos - radi:min_pos + radi + 1]
+    min_pos = np.argmin(list_metric)
+    mid_pos = np.clip(min_pos, radi, num_metric - radi - 1)
+    list1 = list_metric[mid_pos - radi:mid_pos + radi + 1]
     try:
         afact1 = np.polyfit(np.arange(0, 2 * radi + 1), list1, 2)[0]
     except:
         afact1 = 0
-    list2 = list_metric[min_pos - 1:min_pos + 2]
+    mid_pos = np.clip(min_pos, 1, num_metric - 2)
+    list2 = list_metric[mid_pos - 1:mid_pos + 2]
     try:
         afact2, bfact2 = np.polyfit(
-            np.arange(min_pos - 1, min_pos + 2), list2, 2)[:2]
+            np.arange(mid_pos - 1, mid_pos + 2), list2, 2)[:2]
     except:
         afact2, bfact2 = 0.0, 0.0
     curvature = np.abs(afact1)
-- 
2.43.0


From 1973d6cfebb557ee62fa12935049223d91dbf74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 21/84] fix: parallel back projection on the CPU no longer
 races between projections

---
 algotom/rec/reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..42fd676 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,12 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From c858de1b431228f1ae2baf089a04ad54dff2a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 22/84] fix: reconstruction methods do not overwrite
 non-positive values in the caller's sinogram

---
 algotom/rec/reconstruction.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 42fd676..86a5a7f 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -432,7 +432,8 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0),
+                                sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -633,7 +634,8 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0),
+                                sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -962,7 +964,8 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0),
+                                sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -1137,7 +1140,8 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0),
+                                sinogram)
         sinogram = -np.log(sinogram)
     if filter_name is None:
         filter_name = "ram-lak"
@@ -1320,7 +1324,8 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0),
+                                sinogram)
         sinogram = -np.log(sinogram)
         apply_log = False
     if not cuda.is_available():
-- 
2.43.0


From 1d09f0c15e6613a136c3d7d5b1af5b2a3bc17b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 23/84] fix: single-core FBP of a stack of integer sinograms
 keeps the filtered values in float

---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 86a5a7f..c61b7cd 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -460,7 +460,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From a47e38c2e5754012a1dbd4b479181990abce8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 24/84] fix: zoomed angles keep their last value in the centre
 finders

---
 algotom/rec/reconstruction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index c61b7cd..c140ca9 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -1436,7 +1436,8 @@ def find_center_based_slice_metric(sinogram, start, stop, step=0.5,
         sino_zoom = ndi.zoom(sinogram, zoom, order=1, mode="nearest")
         start, stop = start * zoom, stop * zoom
         if angles is not None:
-            angles_zoom = ndi.zoom(np.tile(angles, (1, 1)), (1.0, zoom))[0]
+            angles_zoom = ndi.zoom(np.tile(angles, (1, 1)), (1.0, zoom),
+                                   mode="nearest")[0]
     f_alias = _find_center_based_slice_metric
     if stop > start:
         coarse_center = f_alias(sino_zoom, start, stop + 1, 1.0, metric=metric,
@@ -1523,7 +1524,8 @@ def find_center_visual_slices(sinogram, output, start, stop, step=1, zoom=0.5,
         step = step * zoom
         list_center = np.arange(start, stop, step)
         if angles is not None:
-            angles = ndi.zoom(np.tile(angles, (1, 1)), (1.0, zoom))[0]
+            angles = ndi.zoom(np.tile(angles, (1, 1)), (1.0, zoom),
+                              mode="nearest")[0]
     else:
         list_center = np.arange(start, stop, step)
     if not cuda.is_available():
-- 
2.43.0


From 27c7faced13cfda08b2757f8b1a4f70b83f15355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 25/84] fix: vertical reconstruction does not overwrite
 non-positive values in the caller's projections

---
 algotom/rec/vertrec.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..a5a36e5 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,7 +606,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -647,7 +648,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -877,7 +879,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -922,7 +925,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1152,7 +1156,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1197,7 +1202,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0,
+                                         np.float32(1.0), img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1350,7 +1356,8 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0,
+                                       np.float32(1.0), projections)
                 projections = -np.log(projections)
 
     if masking:
@@ -1498,7 +1505,8 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0,
+                                       np.float32(1.0), projections)
                 projections = -np.log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
-- 
2.43.0


From 19a7db0151223f9e3f34611a2152514f14ee8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 26/84] fix: unsigned flat/dark fields no longer wrap around in
 vertical reconstruction

---
 algotom/rec/vertrec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a5a36e5..1c8f81e 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -567,8 +567,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -839,8 +839,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -1116,8 +1116,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
-- 
2.43.0


From bad0afee71d780cf50893177b2e35b57f298b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 27/84] fix: CPU back projection of unsigned-integer data
 interpolates in float

---
 algotom/rec/reconstruction.py | 4 ++--
 algotom/rec/vertrec.py        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index c140ca9..84630e5 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -343,8 +343,8 @@ def back_projection_cpu(sinogram, angles, center,
                     d_pos = np.int32(np.floor(f_pos))
                     u_pos = np.int32(np.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = sinogram[i, d_pos]
-                        yu = sinogram[i, u_pos]
+                        yd = np.float32(sinogram[i, d_pos])
+                        yu = np.float32(sinogram[i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = sinogram[i, d_pos]
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 1c8f81e..a5745f8 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -93,8 +93,8 @@ def vertical_back_projection_cpu(projections, angles, xlist, ylist, center,
                     d_pos = int(math.floor(f_pos))
                     u_pos = int(math.ceil(f_pos))
                     if u_pos != d_pos:
-                        yd = projections[n, i, d_pos]
-                        yu = projections[n, i, u_pos]
+                        yd = np.float32(projections[n, i, d_pos])
+                        yu = np.float32(projections[n, i, u_pos])
                         val = yd + (yu - yd) * (f_pos - d_pos)
                     else:
                         val = projections[n, i, d_pos]
@@ -156,8 +156,8 @@ def vertical_back_projection_cpu_chunk(projections, angles, x_mat, y_mat,
                 for i in range(height):
                     if 0 <= f_pos <= width1:
                         if u_pos != d_pos:
-                            yd = projections[n, i, d_pos]
-                            yu = projections[n, i, u_pos]
+                            yd = np.float32(projections[n, i, d_pos])
+                            yu = np.float32(projections[n, i, u_pos])
                             val = yd + (yu - yd) * (f_pos - d_pos)
                         else:
                             val = projections[n, i, d_pos]
-- 
2.43.0


From 37032b05cc93de5ffaa6578a7ba18fd4a0a3b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 28/84] fix: FC surface reconstruction uses the image height
 for vertical frequencies

---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..21762f6 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -317,7 +317,7 @@ def _make_window_FC_method(height, width):
     xcenter = width // 2
     ycenter = height // 2
     ulist = (1.0 * np.arange(0, width) - xcenter) / width
-    vlist = (1.0 * np.arange(0, height) - ycenter) / width
+    vlist = (1.0 * np.arange(0, height) - ycenter) / height
     u, v = np.meshgrid(ulist, vlist)
     window = u ** 2 + v ** 2
     window[ycenter, xcenter] = 1.0
-- 
2.43.0


From 8db30bb1775b40608a8a3cbf09a63e3e22046e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 29/84] fix: default margin of the speckle signals covers the
 rounded shifts

---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 21762f6..354f9d9 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -793,7 +793,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.ceil(max(np.max(np.abs(x_shifts)),
+                                 np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From 064c4c1af0d3a43b3774a65294a55bc7d5eac9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 30/84] fix: local shifts with more chunks than searchable rows

---
 algotom/util/correlation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..37ee7f3 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1064,6 +1064,7 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = min(num_chunk, height - 2 * edge)
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -1345,6 +1346,7 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -1631,6 +1633,7 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
+        num_chunk = min(num_chunk, height - 2 * edge)
         list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
@@ -2026,6 +2029,7 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2221,6 +2225,7 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -2451,6 +2456,7 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
@@ -3351,6 +3357,7 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
+    num_chunk = min(num_chunk, height - 2 * edge)
     list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
-- 
2.43.0


From 08df6ee7820ae8a18d97353d6be6725d5eb18d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 31/84] fix: UMPA shifts of integer and hdf stacks

---
 algotom/util/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 37ee7f3..c5ca85a 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -3343,8 +3343,8 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     win_1d = make_smoothing_window(filter_name, win_size)
     window = np.multiply.outer(win_1d, win_1d)
     window = window / np.sum(window)
-    S2 = np.sum(mat ** 2, axis=0)
-    R2 = np.sum(ref_mat ** 2, axis=0)
+    S2 = np.sum(np.square(mat, dtype=np.float64), axis=0)
+    R2 = np.sum(np.square(ref_mat, dtype=np.float64), axis=0)
     L1 = correlate(S2, window, mode="same")
     L3 = correlate(R2, window, mode="same")
     S1 = np.sum(mat, axis=0)
-- 
2.43.0


From 199f49cc5f15baf00b27861a66155d1bd80fc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 32/84] fix: margin too large for the images is refused instead
 of returning zero shift

---
 algotom/util/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index c5ca85a..7aceaf6 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -806,7 +806,7 @@ def find_shift_based_correlation_map(ref_mat, mat, margin=10, axis=None,
         else:
             check2 = False if ((height0 - 2 * margin < height1) and (
                     width0 - 2 * margin < width1)) else True
-    if check2:
+    if check1 and check2:
         match_img = generate_correlation_map(ref_mat, mat, gpu, block)
         (height2, width2) = match_img.shape
         y_mid, x_mid = height2 // 2, width2 // 2
-- 
2.43.0


From 8cffbbffb8d08eed7fc6631603ce73c571da434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 33/84] fix: mean and median of dataset statistics are no
 longer exchanged

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..e90f4b0 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -288,7 +288,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From 1fbb2b52d76926d1563f04f7fd0a821dbded9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 34/84] fix: dataset statistics denoise each image once

---
 algotom/post/postprocessing.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index e90f4b0..b0c4795 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,23 +267,17 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
-- 
2.43.0


From 2580f4eafecd65db29be5f82ee4ed98056bb523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 35/84] fix: statistics and rescaling of a single-slice dataset

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index b0c4795..6d48044 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
-- 
2.43.0


From 9b6c53e2b94702c71d69b3652b3b668eadb4b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 36/84] fix: rescaling a dataset to hdf replaces the existing
 file when asked to overwrite

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 6d48044..4c23185 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -552,7 +552,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=True)
     elif out_type is None:
         data_res = []
     else:
-- 
2.43.0


From 08a91116c14285bf93b5c20003a688b4c4a2d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 37/84] fix: rescaling signed integers no longer overflows

---
 algotom/post/postprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 4c23185..67eef4d 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -348,6 +348,7 @@ def rescale(mat, nbit=16, minmax=None):
         gmin, gmax = np.min(mat), np.max(mat)
     else:
         (gmin, gmax) = minmax
+    gmin, gmax = float(gmin), float(gmax)
     mat = np.clip(mat, gmin, gmax)
     mat = (mat - gmin) / (gmax - gmin)
     if nbit == 8:
-- 
2.43.0


From e01332855c20c548470fcdd231a847f7766c606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 38/84] fix: median downsampling takes the median of each cell

---
 algotom/post/postprocessing.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 67eef4d..fe865cc 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -321,7 +321,7 @@ def downsample(mat, cell_size, method="mean"):
     mat = mat[:height_dsp * cell_size[0], :width_dsp * cell_size[1]]
     mat_dsp = mat.reshape(
         height_dsp, cell_size[0], width_dsp, cell_size[1])
-    mat_dsp = dsp_method(dsp_method(mat_dsp, axis=-1), axis=1)
+    mat_dsp = dsp_method(mat_dsp, axis=(1, 3))
     return mat_dsp
 
 
@@ -471,8 +471,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                           :width_dsp * cell_size[2]]
                 mat = mat.reshape(1, cell_size[0], height_dsp,
                                   cell_size[1], width_dsp, cell_size[2])
-                mat_dsp = dsp_method(
-                    dsp_method(dsp_method(mat, axis=-1), axis=1), axis=2)[0]
+                mat_dsp = dsp_method(mat, axis=(1, 3, 5))[0]
             else:
                 mat = data[i:i + cell_size[0],
                            h1:h1 + height_dsp * cell_size[1],
@@ -480,8 +479,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                 mat = mat.reshape(1, cell_size[0], height_dsp,
                                   cell_size[1], width_dsp,
                                   cell_size[2])
-                mat_dsp = dsp_method(dsp_method(
-                    dsp_method(mat, axis=-1), axis=1), axis=2)[0]
+                mat_dsp = dsp_method(mat, axis=(1, 3, 5))[0]
             if rescaling:
                 mat_dsp = rescale(mat_dsp, nbit, minmax)
             if out_type is None:
-- 
2.43.0


From ef65ebbb2d8b4c1acb387c8e8b1a24dee671559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 39/84] fix: reslicing a cropped hdf dataset reads from the
 cropped depth

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fe865cc..f770741 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -706,7 +706,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -718,7 +718,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -742,7 +742,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -754,7 +754,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From a48cd45a0cda948d6ed2dfcb716d5ee94a9264a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 40/84] fix: reslicing a volume having one image or one row

---
 algotom/post/postprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index f770741..b18005a 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -596,7 +596,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -839,7 +839,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
@@ -858,7 +858,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                 else:
                     if skip is None:
                         skip = min(20, int(0.02 * depth1))
-                    skip = int(np.clip(skip, 1, depth1 - 1))
+                    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
                     if minmax is None:
                         f_alias = get_statistical_information_dataset
                         minmax = f_alias(input_, percentile=(0, 100),
-- 
2.43.0


From 85225accedc2a47a0f67bb5de54e15faee987feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 41/84] fix: reslicing checks its options before writing the
 intermediate file

---
 algotom/post/postprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index b18005a..e6fdeec 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -832,6 +832,9 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     in_type = __get_input_type(input_)
     if in_type != "tif" and in_type != "hdf":
         raise ValueError("Wrong input type !!!")
+    out_type = __get_output_type(output)
+    if rescaling is True and nbit != 8 and nbit != 16:
+        raise ValueError("Only two options for nbit: 8 or 16 !!!")
     results = __save_intermediate_data(input_, output, axis, crop, key_path,
                                        rotate, chunk, mode, ncore,
                                        show_progress)
@@ -866,7 +869,6 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                                          key_path=key_path)[0:2]
             else:
                 rescaling = False
-        out_type = __get_output_type(output)
         t0 = timeit.default_timer()
         if out_type == "hdf":
             key_path = "entry/data" if key_path is None else key_path
-- 
2.43.0


From ba65ed92a13ce6c90647d2bb18f8efcd56b1b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 42/84] fix: reslicing removes only the folders it made

---
 algotom/post/postprocessing.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index e6fdeec..e33773c 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -34,6 +34,7 @@ Module of methods in the postprocessing stage:
 import os
 import sys
 import shutil
+import tempfile
 import timeit
 import glob
 import h5py
@@ -598,9 +599,10 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     (depth1, height1, width1) = results[1]
     chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
-    folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
+    folder_out = os.path.splitext(output)[0]
+    losa.make_folder(folder_out + "/")
+    folder_tmp = tempfile.mkdtemp(prefix="tmp_", dir=folder_out)
     file_tmp = folder_tmp + "/file_tmp.hdf"
-    losa.make_folder(folder_tmp)
     out_key = "entry/data"
     b_unit = 1024.0 * 1024.0
     with h5py.File(file_tmp, 'w') as ofile:
@@ -835,6 +837,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     out_type = __get_output_type(output)
     if rescaling is True and nbit != 8 and nbit != 16:
         raise ValueError("Only two options for nbit: 8 or 16 !!!")
+    out_base = os.path.splitext(output)[0]
+    base_exist = os.path.isdir(out_base)
     results = __save_intermediate_data(input_, output, axis, crop, key_path,
                                        rotate, chunk, mode, ncore,
                                        show_progress)
@@ -943,8 +947,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                                          axis=1, ncore=ncore, prefer="threads")
     if os.path.isdir(folder_tmp):
         shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
+        if out_type == "hdf" and not base_exist:
+            shutil.rmtree(out_base)
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From c8d66d21d7651882f9f7186ef0e6141ebddf6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 43/84] fix: weights of middle grid-rows having different
 overlaps

---
 algotom/util/utility.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..a68a1a5 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1284,12 +1284,7 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap1:
                             fact = dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = dis1 / (ver_overlap2 - 1)
                         if pos < ver_overlap2:
                             fact = pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
@@ -1309,17 +1304,12 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                             fact = 1.0 * dis1 / (ver_overlap - 1)
                     else:
                         ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = 1.0 * dis1 / (ver_overlap1 - 1)
                         if pos < ver_overlap1:
                             fact = 1.0 * pos / (ver_overlap1 - 1)
                         ver_overlap2 = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap2:
                             fact = 1.0 * dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = 1.0 * pos / (ver_overlap2 - 1)
                     result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
-- 
2.43.0


From 2841f79641f4603061ae7a0530aee8c41acdf46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 44/84] fix: weights of slices in an overlap of a single row

---
 algotom/util/utility.py | 42 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index a68a1a5..31e4f13 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1165,6 +1165,15 @@ def fix_non_sample_areas(overlap_metadata, direction="horizontal"):
     return metadata
 
 
+def __ramp_weight(distance, overlap):
+    """
+    Supplementary method: weight of a linear ramp across an overlapping area.
+    """
+    if overlap <= 1:
+        return 0.5
+    return 1.0 * distance / (overlap - 1.0)
+
+
 def locate_slice(slice_idx, height, overlap_metadata):
     """
     Locate slice indices in grid-rows given a slice index of the reconstruction
@@ -1207,16 +1216,17 @@ def locate_slice(slice_idx, height, overlap_metadata):
         if pos.size == 1:
             results.append([i, pos, 1.0])
     if len(results) == 2:
+        overlap = overlap_list[results[0][0]]
         if side == 1:
-            results[0][2] = (1.0 * list_slices[results[0][0]][
-                -1] - slice_idx) / (overlap_list[results[0][0]] - 1.0)
-            results[1][2] = (slice_idx - 1.0 * list_slices[results[1][0]][
-                0]) / (overlap_list[results[0][0]] - 1.0)
+            results[0][2] = __ramp_weight(
+                list_slices[results[0][0]][-1] - slice_idx, overlap)
+            results[1][2] = __ramp_weight(
+                slice_idx - list_slices[results[1][0]][0], overlap)
         else:
-            results[0][2] = (- slice_idx + 1.0 * list_slices[results[0][0]][
-                0]) / (overlap_list[results[0][0]] - 1.0)
-            results[1][2] = (-1.0 * list_slices[results[1][0]][
-                -1] + slice_idx) / (overlap_list[results[0][0]] - 1.0)
+            results[0][2] = __ramp_weight(
+                list_slices[results[0][0]][0] - slice_idx, overlap)
+            results[1][2] = __ramp_weight(
+                slice_idx - list_slices[results[1][0]][-1], overlap)
     return results
 
 
@@ -1274,19 +1284,19 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                         ver_overlap = overlap_list[i]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap:
-                            fact = dis1 / (ver_overlap - 1)
+                            fact = __ramp_weight(dis1, ver_overlap)
                     elif i == (g_nrow - 1):
                         ver_overlap = overlap_list[i - 1]
                         if pos < ver_overlap:
-                            fact = pos / (ver_overlap - 1)
+                            fact = __ramp_weight(pos, ver_overlap)
                     else:
                         ver_overlap1 = overlap_list[i]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap1:
-                            fact = dis1 / (ver_overlap1 - 1)
+                            fact = __ramp_weight(dis1, ver_overlap1)
                         ver_overlap2 = overlap_list[i - 1]
                         if pos < ver_overlap2:
-                            fact = pos / (ver_overlap2 - 1)
+                            fact = __ramp_weight(pos, ver_overlap2)
                     result1.append([i, pos, fact])
         else:
             for slice_idx in range(slice_start, slice_stop):
@@ -1296,20 +1306,20 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
                     if i == 0:
                         ver_overlap = overlap_list[i]
                         if pos < ver_overlap:
-                            fact = 1.0 * pos / (ver_overlap - 1)
+                            fact = __ramp_weight(pos, ver_overlap)
                     elif i == (g_nrow - 1):
                         ver_overlap = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap:
-                            fact = 1.0 * dis1 / (ver_overlap - 1)
+                            fact = __ramp_weight(dis1, ver_overlap)
                     else:
                         ver_overlap1 = overlap_list[i]
                         if pos < ver_overlap1:
-                            fact = 1.0 * pos / (ver_overlap1 - 1)
+                            fact = __ramp_weight(pos, ver_overlap1)
                         ver_overlap2 = overlap_list[i - 1]
                         dis1 = len(list1) - pos - 1
                         if dis1 < ver_overlap2:
-                            fact = 1.0 * dis1 / (ver_overlap2 - 1)
+                            fact = __ramp_weight(dis1, ver_overlap2)
                     result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
-- 
2.43.0


From 4e8697512b8c359739f876977860323510797593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 45/84] fix: blob removal leaves the mask of the caller alone

---
 algotom/prep/removal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..97b17c5 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,6 +971,7 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
@@ -1003,7 +1004,7 @@ def remove_blob(mat, mask):
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
         array_1d = mat[i]
-        mask_1d = mask[i]
+        mask_1d = np.copy(mask[i])
         mask_1d[:2] = 0.0
         mask_1d[-2:] = 0.0
         xlist = np.where(mask_1d < 1.0)[0]
-- 
2.43.0


From 189124ce379dedc84ad5b87e435728d53c401645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 46/84] fix: filling a blob at the end of a row

---
 algotom/prep/removal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 97b17c5..41eef99 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -972,11 +972,11 @@ def remove_blob_1d(sino_1d, mask_1d):
     """
     sino_1d = np.copy(sino_1d)
     mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
-- 
2.43.0


From dd1edc60bc2abd569d41d3a98a2f84e6e878d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 47/84] fix: zingers are selected one object at a time

---
 algotom/prep/removal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 41eef99..976fc59 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -856,12 +856,12 @@ def select_zinger(mat, max_size):
     array_like
         2D binary array.
     """
-    list_zin = ndi.find_objects(ndi.label(mat)[0])
-    zin_sel = [zin for zin in list_zin
-               if check_zinger_size(mat[zin], max_size)]
+    labels = ndi.label(mat)[0]
     mat_out = np.zeros_like(mat)
-    for _, j in enumerate(zin_sel):
-        mat_out[j] = mat[j]
+    for i, zin in enumerate(ndi.find_objects(labels)):
+        mask = labels[zin] == i + 1
+        if check_zinger_size(mask, max_size):
+            mat_out[zin][mask] = mat[zin][mask]
     return mat_out
 
 
-- 
2.43.0


From 22aec170092c5aa674d70ac0ac1559af5f256bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 48/84] fix: Gaussian filter of images having an odd padded
 size

---
 algotom/util/utility.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 31e4f13..bd9899b 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -861,12 +861,8 @@ def apply_gaussian_filter(mat, sigma_x, sigma_y, pad=None, mode=None):
     mat_pad = np.pad(mat_pad, ((pad, pad), (0, 0)), mode=mode2)
     (nrow, ncol) = mat_pad.shape
     window = make_2d_gaussian_window(nrow, ncol, sigma_x, sigma_y)
-    xlist = np.arange(0, ncol)
-    ylist = np.arange(0, nrow)
-    x, y = np.meshgrid(xlist, ylist)
-    mat_sign = np.power(-1.0, x + y)
     mat_filt = np.real(
-        fft.ifft2(fft.fft2(mat_pad * mat_sign) * window) * mat_sign)
+        fft.ifft2(fft.ifftshift(fft.fftshift(fft.fft2(mat_pad)) * window)))
     return mat_filt[pad:nrow - pad, pad:ncol - pad]
 
 
-- 
2.43.0


From dde544999ada6282660e6f04d808150a6822d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 49/84] fix: separating frequencies of columns having an odd
 padded length

---
 algotom/util/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index bd9899b..04fb8c3 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -289,13 +289,12 @@ def separate_frequency_component(mat, axis=0, window=None):
         para = tuple(window.values())[1:]
         window = getattr(win, win_name)(ncol + 2 * pad, *para)
 
-    list_sign = np.power(-1.0, np.arange(ncol + 2 * pad))
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
     mat_smooth = np.copy(mat)
     for i, line in enumerate(mat_pad):
         mat_smooth[i] = np.real(
-            fft.ifft(fft.fft(line * list_sign) * window) *
-            list_sign)[pad:ncol + pad]
+            fft.ifft(fft.ifftshift(fft.fftshift(fft.fft(line)) * window))
+        )[pad:ncol + pad]
     mat_sharp = mat - mat_smooth
     if axis == 0:
         mat_smooth = np.transpose(mat_smooth)
-- 
2.43.0


From f15e0af6a5aca47add835dc500259df4a4127092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 50/84] fix: centre of the damping and Butterworth windows of
 an even size

---
 algotom/util/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 04fb8c3..5fcc440 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -435,8 +435,8 @@ def make_2d_butterworth_window(width, height, u, v, n):
     array_like
         2D array.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
-    ycenter = np.int16(np.ceil(height / 2.0) - 1)
+    xcenter = width // 2
+    ycenter = height // 2
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
     row1 = ycenter - np.int16(v)
@@ -467,7 +467,7 @@ def make_2d_damping_window(width, height, size, window_name="gaussian"):
     array_like
         2D array of the window.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
+    xcenter = width // 2
     xlist = np.arange(width) - xcenter
     if window_name == "butter":
         window = 1.0 - 1.0 / (1.0 + np.power(xlist / size, 2))
-- 
2.43.0


From e94266089f0863aac61ba48098b6697f208d3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 51/84] fix: fft-based stripe and ring removal keeps the sign
 of the data

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 976fc59..9accc20 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -626,7 +626,7 @@ def remove_stripe_based_fft(sinogram, u=20, n=8, v=1, sort=False):
     window_2d = util.make_2d_butterworth_window(ncol, nrow, u, v, n)
     sinogram = fft.ifft2(
         np.fft.ifftshift(np.fft.fftshift(fft.fft2(sinogram)) * window_2d))
-    sinogram = np.abs(sinogram[pad:nrow - pad, pad:ncol - pad])
+    sinogram = np.real(sinogram[pad:nrow - pad, pad:ncol - pad])
     if sort is True:
         sinogram = util.sort_backward(sinogram, sino_index, axis=0)
     return sinogram
-- 
2.43.0


From 335f47aa1ca4ccbfd5c2fab3f9ee38e2f7f99373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 52/84] fix: wavelet reconstruction leaves the data of the
 caller alone

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 5fcc440..0f3c28c 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -528,6 +528,7 @@ def apply_wavelet_reconstruction(data, wavelet_name, ignore_level=None):
     if ignore_level is not None:
         level = len(data[1:])
         if level >= ignore_level > 0:
+            data = list(data)
             data[-ignore_level] = tuple(
                 [np.zeros_like(v) for v in data[-ignore_level]])
     return pywt.waverec2(data, wavelet_name)
-- 
2.43.0


From df40e6c1ba5ce974a575ee5757cb68b96199ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 53/84] fix: radial scale of the polar transformation

---
 algotom/util/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 0f3c28c..0638763 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -720,8 +720,9 @@ def polar_from_rectangular(width_pol, height_pol, width_reg, height_reg):
     xcenter = (width_reg - 1.0) * 0.5
     ycenter = (height_reg - 1.0) * 0.5
     r_max = np.floor(max(xcenter, ycenter))
-    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * width_pol / r_max
-    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * width_pol / r_max
+    scale = (width_pol - 1.0) / r_max
+    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * scale
+    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * scale
     x_mat, y_mat = np.meshgrid(xlist, ylist)
     r_mat = np.float32(
         np.clip(np.sqrt(x_mat ** 2 + y_mat ** 2), 0, width_pol - 1))
-- 
2.43.0


From bd925d8bc869d6358d8f9d0e0194d8d67e564db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 54/84] fix: regularization coefficients are the inverse of the
 regularized operator

---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 0638763..20fd9d2 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -405,8 +405,8 @@ def calculate_regularization_coefficient(width, alpha):
     matjj, matii = np.meshgrid(jlist, ilist)
     mat1 = np.abs(matii - matjj)
     mat2 = matii + matjj
-    mat1a = np.cosh((width - 1 - mat1) * tau)
-    mat2a = np.cosh((width - mat2) * tau)
+    mat1a = np.cosh((width - mat1) * tau)
+    mat2a = np.cosh((width - 1 - mat2) * tau)
     matcoe = - (np.tanh(
         0.5 * tau) / (alpha * np.sinh(width * tau))) * (mat1a + mat2a)
     return matcoe
-- 
2.43.0


From 8c8c511bbd2b3d8be3ba21d611159542f9043a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 55/84] fix: regularization coefficients of wide images do not
 overflow

---
 algotom/util/utility.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 20fd9d2..f3ac32a 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -405,10 +405,15 @@ def calculate_regularization_coefficient(width, alpha):
     matjj, matii = np.meshgrid(jlist, ilist)
     mat1 = np.abs(matii - matjj)
     mat2 = matii + matjj
-    mat1a = np.cosh((width - mat1) * tau)
-    mat2a = np.cosh((width - 1 - mat2) * tau)
-    matcoe = - (np.tanh(
-        0.5 * tau) / (alpha * np.sinh(width * tau))) * (mat1a + mat2a)
+    # Ratio of cosh(x * tau) to sinh(width * tau), free of overflow.
+    norm = 1.0 - np.exp(-2 * width * tau)
+    mat1b = width - mat1
+    mat2b = np.abs(width - 1 - mat2)
+    mat1a = (np.exp((mat1b - width) * tau)
+             + np.exp(-(mat1b + width) * tau)) / norm
+    mat2a = (np.exp((mat2b - width) * tau)
+             + np.exp(-(mat2b + width) * tau)) / norm
+    matcoe = - (np.tanh(0.5 * tau) / alpha) * (mat1a + mat2a)
     return matcoe
 
 
-- 
2.43.0


From 7aa8e14eddd622ba3cc6cbb4671c0a1c4768837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 56/84] fix: Gaussian filter keeps the mean of images having an
 even padded size

---
 algotom/util/utility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index f3ac32a..1fdb50c 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -866,7 +866,10 @@ def apply_gaussian_filter(mat, sigma_x, sigma_y, pad=None, mode=None):
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode=mode1)
     mat_pad = np.pad(mat_pad, ((pad, pad), (0, 0)), mode=mode2)
     (nrow, ncol) = mat_pad.shape
-    window = make_2d_gaussian_window(nrow, ncol, sigma_x, sigma_y)
+    # The zero frequency is at the index of (size // 2).
+    window = make_2d_gaussian_window(
+        nrow + 1 - nrow % 2, ncol + 1 - ncol % 2, sigma_x, sigma_y)
+    window = window[:nrow, :ncol]
     mat_filt = np.real(
         fft.ifft2(fft.ifftshift(fft.fftshift(fft.fft2(mat_pad)) * window)))
     return mat_filt[pad:nrow - pad, pad:ncol - pad]
-- 
2.43.0


From e77884716802a9aad5b2226562737009a42c4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 57/84] fix: separating frequencies keeps the mean of columns
 having an even padded length

---
 algotom/util/utility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 1fdb50c..b5da95e 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -287,7 +287,9 @@ def separate_frequency_component(mat, axis=0, window=None):
     else:
         win_name = tuple(window.values())[0]
         para = tuple(window.values())[1:]
-        window = getattr(win, win_name)(ncol + 2 * pad, *para)
+        # The zero frequency is at the index of (size // 2).
+        size = ncol + 2 * pad
+        window = getattr(win, win_name)(size + 1 - size % 2, *para)[:size]
 
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
     mat_smooth = np.copy(mat)
-- 
2.43.0


From b3d3f6237d455a88dbe58cee8ed567489d97d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 58/84] fix: fitting-based stripe removal of sinograms having
 empty columns

---
 algotom/prep/removal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 9accc20..d4fa5fe 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -232,7 +232,8 @@ def remove_stripe_based_fitting(sinogram, order=2, sigma=10, sort=False,
                                      " namespace".format(method))
     sino_filt = np.mean(np.abs(sino_fit)) * sino_filt / np.mean(
         np.abs(sino_filt))
-    sino_corr = ((sinogram / sino_fit) * sino_filt)
+    sino_corr = np.divide(sinogram, sino_fit, out=np.zeros_like(sino_fit),
+                          where=sino_fit != 0) * sino_filt
     if sort is True:
         sino_corr = util.sort_backward(sino_corr, sino_index, axis=0)
     return sino_corr
-- 
2.43.0


From 9ab49706f4fc565e2f0c3ac6ed75aeb3bf285aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 59/84] fix: remove dead stripes from integer sinograms without
 wrap-around

---
 algotom/prep/removal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index d4fa5fe..bb7f809 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -345,6 +345,8 @@ def remove_dead_stripe(sinogram, snr=3.0, size=51, residual=True,
     [1] : https://doi.org/10.1364/OE.26.028396
     """
     sinogram = np.copy(sinogram)
+    if sinogram.dtype.kind in "iu":
+        sinogram = np.float32(sinogram)
     (nrow, ncol) = sinogram.shape
     sino_smooth = np.apply_along_axis(ndi.uniform_filter1d, 0, sinogram,
                                       smooth_strength)
-- 
2.43.0


From 169908341cb000d936d0344a298f5f8354e9f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 60/84] fix: separate the frequencies of integer images without
 truncation

---
 algotom/util/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index b5da95e..f95f1da 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -292,7 +292,7 @@ def separate_frequency_component(mat, axis=0, window=None):
         window = getattr(win, win_name)(size + 1 - size % 2, *para)[:size]
 
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
-    mat_smooth = np.copy(mat)
+    mat_smooth = np.array(mat, dtype=np.result_type(mat, np.float32))
     for i, line in enumerate(mat_pad):
         mat_smooth[i] = np.real(
             fft.ifft(fft.ifftshift(fft.fftshift(fft.fft(line)) * window))
-- 
2.43.0


From ed047f70af9c44142a7b9d07370db6676133d95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 61/84] fix: Butterworth window with the cutoff rows exceeding
 the height

---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index f95f1da..2c5d8ac 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -446,8 +446,8 @@ def make_2d_butterworth_window(width, height, u, v, n):
     ycenter = height // 2
     xlist = np.arange(width) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
-    row1 = ycenter - np.int16(v)
-    row2 = ycenter + np.int16(v) + 1
+    row1 = max(ycenter - int(v), 0)
+    row2 = ycenter + int(v) + 1
     window_2d = np.ones((height, width), dtype=np.float32)
     window_2d[row1:row2] = window
     return window_2d
-- 
2.43.0


From 5fbf2a65e0023e747207c7d53f917c240e86318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 62/84] fix: double-wedge mask of a small radius without
 integer overflow

---
 algotom/prep/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index 18eae99..ccb563f 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -156,8 +156,8 @@ def make_double_wedge_mask(height, width, radius):
     xcenter = np.int16(np.ceil((width - 1) / 2.0))
     mask = np.ones((height, width), dtype=np.float32)
     for i in range(height):
-        num = np.int16(np.ceil(((i - ycenter) * dv / radius) / du))
-        (p1, p2) = np.int16(np.clip(
+        num = np.int64(np.ceil(((i - ycenter) * dv / radius) / du))
+        (p1, p2) = np.int64(np.clip(
             np.sort((-num + xcenter, num + xcenter)), 0, width - 1))
         mask[i, p1:p2 + 1] = 0.0
     mask[ycenter - ndrop:ycenter + ndrop + 1, :] = 1.0
-- 
2.43.0


From e587e42799ce357513780d4a83fe610d87091191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 63/84] fix: select dots by their own size, without the pixels
 of other dots

---
 algotom/util/calibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index 8708c7a..f449d97 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -285,11 +285,12 @@ def select_dot_based_size(mat, dot_size, ratio=0.01):
     max_size = np.clip(np.int32(dot_size + ratio * dot_size), 1, None)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, dot in enumerate(list_dots):
+        # Pixels of other dots can be inside the bounding box.
+        mat_dot = mat[dot] * (mat_label[dot] == i + 1)
+        if check_dot_size(mat_dot, min_size, max_size):
+            mat1[dot] += mat_dot
     return mat1
 
 
-- 
2.43.0


From ba603c74c5104eae8cb8eb2f3365b7fa0e7b4909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 64/84] fix: simulated stripe at the last columns of a sinogram

---
 algotom/util/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/simulation.py b/algotom/util/simulation.py
index 8fe2543..e3c37df 100644
--- a/algotom/util/simulation.py
+++ b/algotom/util/simulation.py
@@ -430,7 +430,7 @@ def add_stripe_artifact(sinogram, size, position, strength_ratio=0.2,
     """
     sinogram = np.copy(sinogram)
     (nrow, ncol) = sinogram.shape
-    position = np.clip(position, 0, ncol - size - 1)
+    position = np.clip(position, 0, ncol - size)
     strength_ratio = np.clip(strength_ratio, 0.0, 1.0)
     stripe = sinogram[:, position: position + size]
     if stripe_type == "partial":
-- 
2.43.0


From 6d90f79686f5b6bd1fad0fa4b3563253dfbca293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 65/84] fix: regularization filter of integer images

---
 algotom/util/utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 2c5d8ac..12e6026 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -882,6 +882,9 @@ def apply_1d_regularizer(list_data, sijmat):
     Supplementary method for the method of "apply_regularization_filter".
     To apply a regularizer to an 1D-array.
     """
+    list_data = np.asarray(list_data)
+    if list_data.dtype.kind != "f":
+        list_data = np.float32(list_data)
     ncol = len(list_data)
     list_grad = np.zeros(ncol, dtype=np.float32)
     list_grad[1:-1] = (-1) * np.diff(list_data, 2)
-- 
2.43.0


From 43af7b75739975adad41a14d196e9cdc1a4bb4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:27 +0000
Subject: [PATCH 66/84] fix: local shifts with automatic worker count on a
 single-CPU machine

---
 algotom/util/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 7aceaf6..b123cf7 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -958,7 +958,7 @@ def _get_1d_shift_multi_rows_3d_input(ref_mat, mat, direction="x", win_size=7,
         raise ValueError("Only two options: 'x' or 'y''")
     (depth, height, width) = ref_mat.shape
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     f_alias = _get_1d_shift_single_row_2d_input
     if direction == "x":
         if ncore == 1:
@@ -2372,7 +2372,7 @@ def _get_2d_shift_multi_rows_3d_input_cpu_gpu(ref_mat, mat, win_size=7,
     f_alias[grid, block](coef_4d, ref_mat1, mat1, np.int32(height1),
                          np.int32(width1), np.int32(radi), np.int32(margin))
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     shifts = np.asarray(Parallel(n_jobs=ncore)(
         delayed(locate_peak)(coef_4d[i, j, :, :], True, method, 2, size)
         for i in range(height1) for j in range(width1)))
-- 
2.43.0


From 62c04d69e958fd5fb2c0f3188261bfa8658b873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 67/84] fix: vertical reconstruction on a machine without a GPU

---
 algotom/rec/vertrec.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a5745f8..3fc13dc 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -519,6 +519,9 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
@@ -786,6 +789,9 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
@@ -1067,6 +1073,9 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
             or ramp_filter is None):
         raise ValueError("Must use one of these options: "
                          "'before', 'after', None")
+    if gpu is True and cuda.is_available() is False:
+        warnings.warn("!!!No Nvidia GPU found! Run with CPU instead!!!")
+        gpu = False
     if ncore is None:
         ncore = int(np.clip(mp.cpu_count() - 1, 1, None))
     else:
-- 
2.43.0


From f14e08a69ea481d10384b2458b4c6e8c4222acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 68/84] fix: stitch_image_multiple passes on the choice of
 normalization

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index f378aa7..ce5c2fd 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -262,7 +262,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0


From b3b61e33272f60e0bf72c4e32c3cf8549624541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 69/84] fix: save images of signed integers, booleans and half
 floats to 8-bit formats

---
 algotom/io/loadersaver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 99b47b9..4872e12 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -401,6 +401,8 @@ def save_image(file_path, mat, overwrite=True):
     file_path = file_path.resolve()
     file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
+        if mat.dtype.kind in "biu" or mat.dtype == np.float16:
+            mat = np.float64(mat)
         mat = np.uint8(
             255.0 * (mat - np.min(mat)) / (np.max(mat) - np.min(mat)))
     else:
-- 
2.43.0


From 973523e29bfa793fbe2d43cef1155e992528b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 70/84] fix: peak location in maps of integers

---
 algotom/util/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index b123cf7..ee70337 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -673,6 +673,8 @@ def locate_peak(mat, sub_pixel=True, method="diff", dim=2, size=3,
     [2] : https://doi.org/10.1088/0957-0233/17/6/045
     """
     (height, width) = mat.shape
+    if mat.dtype.kind in "biu":
+        mat = np.float64(mat)
     size = 3 if method == "diff" else 2 * (size // 2) + 1
     size = np.clip(size, 3, 9)
     if not max_peak:
-- 
2.43.0


From ec698aee937b0b0e8ef5d197ead0eb779e9934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 71/84] fix: complex gradient of images of unsigned integers

---
 algotom/prep/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 1315ce4..3d8f1d1 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -729,6 +729,8 @@ def complex_gradient(mat):
     """
     Return complex gradient of a 2D array.
     """
+    if mat.dtype.kind in "biu":
+        mat = np.float64(mat)
     mat1a = np.roll(mat, -2, axis=1)
     mat2a = mat1a - mat
     mat2a[:, :2] = 0.0
-- 
2.43.0


From aaa0c1865f315eb396b63e9b10aa19b0fb9ece28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 72/84] fix: metric of a center with a sinogram of integers

---
 algotom/prep/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 3d8f1d1..65d5c2d 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -130,6 +130,8 @@ def calculate_center_metric(center, sino_180, sino_flip, sino_comp, mask):
             sino_shift[:, shift_col:] = sino_comp[:, shift_col:]
         mat = np.vstack((sino_180, sino_shift))
     else:
+        if sino_flip.dtype.kind in "biu":
+            sino_flip = np.float64(sino_flip)
         sino_shift = ndi.shift(sino_flip, (0, shift_col), order=3,
                                prefilter=True)
         if shift_col >= 0:
-- 
2.43.0


From 6c940bccade543a55bae64d24a0ef91ace002bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 73/84] fix: 360-degree sinogram from a 180-degree sinogram of
 integers

---
 algotom/prep/conversion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index ce5c2fd..52dd36d 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -386,6 +386,7 @@ def convert_sinogram_180_to_360(sino_180, center):
     [1] : https://doi.org/10.1364/OE.22.019078
     """
     (nrow, ncol) = sino_180.shape
+    sino_180 = sino_180.astype(np.result_type(sino_180, np.float32))
     xcenter = (ncol - 1.0) / 2.0
     shift_x = xcenter - center
     sino_flip = shift(np.fliplr(shift(sino_180, (0, shift_x), mode='nearest')),
-- 
2.43.0


From 6809035adf37c1b3039f77124623fd51d0260237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 74/84] fix: DFI reconstruction of sinograms of integers

---
 algotom/rec/reconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 84630e5..4265e3b 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -754,6 +754,8 @@ def __dfi_handle_sinogram(sinogram0, angles, center, pad_rate, pad_mode):
     Shift and pad sinogram.
     """
     sinogram = np.squeeze(sinogram0)
+    if sinogram.dtype.kind in "biu":
+        sinogram = np.float64(sinogram)
     if len(sinogram.shape) == 3:
         (nrow, num_sino, ncol) = sinogram.shape
         if ncol % 2 == 0:
-- 
2.43.0


From 18722e9d4ec9d5c67f58705d6d5e8311c264f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 75/84] fix: normalization-based stripe removal of sinograms of
 integers

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index bb7f809..e67110e 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -485,7 +485,7 @@ def remove_stripe_based_normalization(sinogram, sigma=15, num_chunk=1,
           " 'filter_name', 'para1': parameter_1, 'para2': parameter_2}" \
           "\n Note that the filter must be a 1D-filter."
     (nrow, _) = sinogram.shape
-    sinogram = np.copy(sinogram)
+    sinogram = sinogram.astype(np.result_type(sinogram, np.float32))
     sino_index = None
     if sort is True:
         sinogram, sino_index = util.sort_forward(sinogram, axis=0)
-- 
2.43.0


From 84f1a5fdd30d0f199177ee8f55fe2a643b909f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 76/84] fix: alignment of image stacks of integers

---
 algotom/prep/phase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 354f9d9..efe9967 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -672,6 +672,8 @@ def align_image_stacks(ref_stack, sam_stack, sr_shifts, sam_shifts=None,
     if sam_shifts is not None:
         if len(ref_stack) != len(sam_shifts):
             raise ValueError(msg)
+    ref_stack = ref_stack.astype(np.result_type(ref_stack, np.float32))
+    sam_stack = sam_stack.astype(np.result_type(sam_stack, np.float32))
     num_image = len(ref_stack)
     ref_stack1 = np.zeros_like(ref_stack)
     sam_stack1 = np.zeros_like(sam_stack)
-- 
2.43.0


From 1ad0dd5e63eef625b2a22f10e26cc5d92dc32e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 77/84] fix: shifts between sample images of integers

---
 algotom/prep/phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index efe9967..231c3a7 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -612,6 +612,7 @@ def find_shift_between_sample_images(ref_stack, sam_stack, sr_shifts, win_size,
     if len(ref_stack.shape) == 2:
         ref_stack = np.expand_dims(ref_stack, axis=0)
         sam_stack = np.expand_dims(sam_stack, axis=0)
+    sam_stack = sam_stack.astype(np.result_type(sam_stack, np.float32))
     eps = 1.0e-09
     xy_shifts = [[0.0, 0.0]]
     num_image = len(ref_stack)
-- 
2.43.0


From 5a6eb02bb81a6e9f51d04df3355714adf598498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 78/84] fix: metrics of the vertical-slice center search with
 integer candidates

---
 algotom/rec/vertrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 3fc13dc..bc48ff2 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -1350,7 +1350,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if ramp_filter is None:
         ramp_filter = "after"
     list_center = np.arange(start, stop + step, step)
-    list_metric = np.zeros_like(list_center)
+    list_metric = np.zeros(len(list_center))
     num_metric = len(list_metric)
     (num_proj, height, width) = projections.shape
     if angles is None:
-- 
2.43.0


From c8293a07f179000607a084cea63de3a2afc7e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:25 +0000
Subject: [PATCH 79/84] fix: simulated stripes in sinograms of integers

---
 algotom/util/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/simulation.py b/algotom/util/simulation.py
index e3c37df..1f6c55e 100644
--- a/algotom/util/simulation.py
+++ b/algotom/util/simulation.py
@@ -428,7 +428,7 @@ def add_stripe_artifact(sinogram, size, position, strength_ratio=0.2,
     ----------
     [1] : https://doi.org/10.1364/OE.26.028396
     """
-    sinogram = np.copy(sinogram)
+    sinogram = sinogram.astype(np.result_type(sinogram, np.float32))
     (nrow, ncol) = sinogram.shape
     position = np.clip(position, 0, ncol - size)
     strength_ratio = np.clip(strength_ratio, 0.0, 1.0)
-- 
2.43.0


From 9a26b14c7771aae350e2bb3f752e906ad54fe1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 80/84] fix: resized 360-degree sinograms of integers for
 finding the center

---
 algotom/util/utility.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 12e6026..61ba477 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1408,6 +1408,7 @@ def find_center_visual_sinograms(sino_180, output, start, stop, step=1,
     ----------
     [1] : https://doi.org/10.1364/OE.22.019078
     """
+    sino_180 = sino_180.astype(np.result_type(sino_180, np.float32))
     (nrow, ncol) = sino_180.shape
     output_name = losa.make_folder_name(output, name_prefix="Find_center",
                                         zero_prefix=3)
-- 
2.43.0


From 34be4a0214221a806e70afe6303e59799d2317f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:35 +0000
Subject: [PATCH 81/84] fix: regularization-based stripe removal of sinograms
 of integers

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index e67110e..a61d3b8 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -557,7 +557,7 @@ def remove_stripe_based_regularization(sinogram, alpha=0.0005, num_chunk=1,
     [2] : https://doi.org/10.1364/OE.26.028396
     """
     (nrow, ncol) = sinogram.shape
-    sinogram = np.copy(sinogram)
+    sinogram = sinogram.astype(np.result_type(sinogram, np.float32))
     sino_index = None
     if sort is True:
         sinogram, sino_index = util.sort_forward(sinogram, axis=0)
-- 
2.43.0


From b0beb5de3c1bad01e99647ffeebbf9d1c541735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 82/84] fix: a range of projections outside the data is refused
 when reconstructing vertical slices

---
 algotom/rec/vertrec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index bc48ff2..631546f 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -530,7 +530,7 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
     if proj_stop == -1:
         proj_stop = num_proj0
     num_proj = proj_stop - proj_start
-    if num_proj < 1:
+    if num_proj < 1 or proj_start < 0 or proj_stop > num_proj0:
         raise ValueError("Wrong value of proj_start or proj_stop !!! Given "
                          "the number of projections {}".format(num_proj0))
     if angles is None:
@@ -800,7 +800,7 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
     if proj_stop == -1:
         proj_stop = num_proj0
     num_proj = proj_stop - proj_start
-    if num_proj < 1:
+    if num_proj < 1 or proj_start < 0 or proj_stop > num_proj0:
         raise ValueError("Wrong value of proj_start or proj_stop !!! Given "
                          "the number of projections {}".format(num_proj0))
     if angles is None:
@@ -1084,7 +1084,7 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
     if proj_stop == -1:
         proj_stop = num_proj0
     num_proj = proj_stop - proj_start
-    if num_proj < 1:
+    if num_proj < 1 or proj_start < 0 or proj_stop > num_proj0:
         raise ValueError("Wrong value of proj_start or proj_stop !!! Given "
                          "the number of projections {}".format(num_proj0))
     if angles is None:
-- 
2.43.0


From efe2bab4ae54c95bcbe0f1bd679482e96ebb47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 83/84] fix: negative index of a tif stack is refused when past
 the first image

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 4872e12..f4e9ab5 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1041,7 +1041,7 @@ def get_tif_stack(file_base, idx=None, crop=(0, 0, 0, 0), flat_field=None,
     if idx is not None:
         if idx < 0:
             idx = num_file + idx
-        if idx > (num_file - 1):
+        if idx < 0 or idx > (num_file - 1):
             raise ValueError("Requested index: {0} is out of "
                              "the range: {1}".format(idx, num_file - 1))
     if num_use is None:
-- 
2.43.0


From 7639e0c0437c01637ec9dc9778d7b7ade5173564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:22 +0000
Subject: [PATCH 84/84] fix: unsupported bit depth is refused before the
 rescaled file is created

---
 algotom/post/postprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index e33773c..9d6637f 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -545,8 +545,10 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_type = "uint8"
     elif nbit == 16:
         data_type = "uint16"
-    else:
+    elif nbit == 32:
         data_type = "float32"
+    else:
+        raise ValueError("Only three options for nbit: 8, 16, or 32 !!!")
     out_type = __get_output_type(output)
     if out_type == "hdf":
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
-- 
2.43.0

