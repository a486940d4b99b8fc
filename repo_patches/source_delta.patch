From 5889129e00ef191c83199ea7dcd7684976d83fbc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/35] fix: PR curve plots read the nine-column overall
 results

save_overall_metric writes nine columns (AP last); the plots broadcast them
into eight and raised on every file written by this package.
---
 pyEdgeEval/common/binary_label/visualize.py | 2 +-
 pyEdgeEval/visualization/pr_curve.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index f3431a5..b1ca242 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -64,7 +64,7 @@ def plot_pr_curve(
     hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
+        res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 2a0da75..e832b69 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -105,7 +105,7 @@ def plot_pr_curve(
     hs, res, prs = [None] * n, np.zeros((n, 9), dtype=np.float32), []
     for i, alg in enumerate(algs):
         pr = _load_threshold_data(alg.threshold_results)
-        res[i, :8] = _load_overall_results(alg.overall_results)
+        res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
     prs = np.stack(prs, axis=0)
-- 
2.43.0


From 43143d84dd13bec6a0330e4f56e3cf6550f54c5a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 02/35] fix: PR curve plots accept algorithms with differently
 long curves

Rows with recall below 1e-3 are dropped per algorithm, so the curves need
not have one length and could not be stacked.
---
 pyEdgeEval/common/binary_label/visualize.py | 8 ++++----
 pyEdgeEval/visualization/pr_curve.py        | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/visualize.py b/pyEdgeEval/common/binary_label/visualize.py
index b1ca242..be081b9 100644
--- a/pyEdgeEval/common/binary_label/visualize.py
+++ b/pyEdgeEval/common/binary_label/visualize.py
@@ -67,17 +67,17 @@ def plot_pr_curve(
         res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index e832b69..6fd0c7a 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -108,17 +108,17 @@ def plot_pr_curve(
         res[i, :8] = _load_overall_results(alg.overall_results)[:8]
         res[i, 8] = _calc_r50(pr)
         prs.append(pr)
-    prs = np.stack(prs, axis=0)
 
     # sort algorithms by ODS score
     o = np.argsort(res[:, 3])[::-1]
-    res, prs, names, colors = res[o, :], prs[o], names[o], colors[o]
+    res, names, colors = res[o, :], names[o], colors[o]
+    prs = [prs[i] for i in o]
 
     # plot results for every algorithm (plot best last)
     for i in range(n - 1, -1, -1):
         hs[i] = ax.plot(
-            prs[i, :, 1],
-            prs[i, :, 2],
+            prs[i][:, 1],
+            prs[i][:, 2],
             linestyle="-",
             linewidth=3,
             color=colors[i],
-- 
2.43.0


From fde731ba37f2f9eba3b19138447bcf774f2d09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 03/35] fix: check_thresholds accepts the documented np.ndarray

---
 pyEdgeEval/common/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyEdgeEval/common/utils.py b/pyEdgeEval/common/utils.py
index 7c1eaea..fafdb97 100644
--- a/pyEdgeEval/common/utils.py
+++ b/pyEdgeEval/common/utils.py
@@ -15,6 +15,9 @@ def check_thresholds(thresholds):
     elif isinstance(thresholds, list):
         # multiple specific thresholds
         thresholds = np.array(thresholds)
+    elif isinstance(thresholds, np.ndarray):
+        # already an array
+        pass
     else:
         raise ValueError(
             "thresholds should be an int or a NumPy array, not "
-- 
2.43.0


From 406b0797e6d4dbc0512c047c9c3ce02cf567953c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 04/35] fix: binary_thin runs until neither sub-iteration
 changes the image

It stopped as soon as one of the two sub-iterations had nothing to delete,
leaving thick lines behind, and returned the input unconverted when the first
one had nothing to delete.
---
 pyEdgeEval/preprocess/thin/thin.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyEdgeEval/preprocess/thin/thin.py b/pyEdgeEval/preprocess/thin/thin.py
index b843c5c..0ab92a9 100644
--- a/pyEdgeEval/preprocess/thin/thin.py
+++ b/pyEdgeEval/preprocess/thin/thin.py
@@ -257,25 +257,26 @@ def binary_thin(x, max_iter=None):
     thin1_mut = _lut_mutate_mask(thin1)
     thin2_mut = _lut_mutate_mask(thin2)
 
+    # the output is always a bool mask
+    x = x != 0
+
     iter_count = 0
     while max_iter is None or iter_count < max_iter:
         # Iter 1
         lut_indices = binary_image_to_lut_indices(x)
         # FIXME: index "" is out of bounds for axis 0 with size 512
-        x_mut = thin1_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
-
+        mutated = thin1_mut[lut_indices].any()
         x = thin1[lut_indices]
 
         # Iter 2
         lut_indices = binary_image_to_lut_indices(x)
-        x_mut = thin2_mut[lut_indices]
-        if x_mut.sum() == 0:
-            break
-
+        mutated = mutated or thin2_mut[lut_indices].any()
         x = thin2[lut_indices]
 
+        # stop only when neither sub-iteration changed anything
+        if not mutated:
+            break
+
         iter_count += 1
 
     return x
-- 
2.43.0


From e0ba077351091cca74dbd6671d696105c017f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 05/35] fix: bwmorph_thin works without the removed np.in1d

---
 pyEdgeEval/preprocess/thin/bwmorph_thin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/thin/bwmorph_thin.py b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
index dacd5a4..d160d55 100644
--- a/pyEdgeEval/preprocess/thin/bwmorph_thin.py
+++ b/pyEdgeEval/preprocess/thin/bwmorph_thin.py
@@ -114,7 +114,7 @@ def bwmorph_thin(image, n_iter=None):
 
     if skel.ndim != 2:
         raise ValueError("2D array required")
-    if not np.all(np.in1d(image.flat, (0, 1))):
+    if not np.all(np.isin(image, (0, 1))):
         raise ValueError("Image contains values other than 0 and 1")
 
     # neighborhood mask
-- 
2.43.0


From 3b6a8e5ad7ecbfb4499efb4c2c809109102d1344 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 06/35] fix: 32-bit multi-label encodings of uint8 edges with
 more than 8 classes

(2**k) * uint8 raises OverflowError with NumPy 2 from the ninth class on.
---
 pyEdgeEval/common/multi_label/edge_encoding.py | 2 +-
 pyEdgeEval/utils/convert_formats.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/multi_label/edge_encoding.py b/pyEdgeEval/common/multi_label/edge_encoding.py
index 22945b0..edb6006 100644
--- a/pyEdgeEval/common/multi_label/edge_encoding.py
+++ b/pyEdgeEval/common/multi_label/edge_encoding.py
@@ -21,7 +21,7 @@ def default_multilabel_encoding(edges: np.ndarray):
 
     cat_edge_map = np.zeros((h, w), dtype=np.uint32)
     for trainId in range(num_classes):
-        edge_map = edges[trainId]
+        edge_map = edges[trainId].astype(np.uint32)
         cat_edge_map = cat_edge_map + (2**trainId) * edge_map
 
     return cat_edge_map
diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 35e1ef7..2993621 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -35,7 +35,7 @@ def edge_onehot2multilabel(edges: np.ndarray) -> np.ndarray:
 
     edge_map = np.zeros((h, w), dtype=np.uint32)
     for l in range(labels):
-        m = edges[l]
+        m = edges[l].astype(np.uint32)
         edge_map = edge_map + (2**l) * m
 
     return edge_map
-- 
2.43.0


From 17f1e44bd18a1623d6904eb4aeccd394dff15348 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 07/35] fix: convert Cityscapes edges to .bin

ndarray.tofile has no dtype argument.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 4b1909b..1972cac 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -183,7 +183,7 @@ def convert_label_to_semantic_edges(
         edges_img.save(proc_file)
     elif save_format == ".bin":
         edges = default_multilabel_encoding(edge_trainIds)
-        edges.tofile(proc_file, dtype=np.uint32)
+        edges.astype(np.uint32).tofile(proc_file)
     else:
         raise ValueError()
 
-- 
2.43.0


From 561d112b75ce61acdf066b3f196ae8ddcda847ef Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 08/35] fix: SBD evaluation honours --pred-suffix

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index fa68114..8543686 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -178,6 +178,7 @@ def evaluate(
     evaluator = SBDEvaluator(
         dataset_root=sbd_path,
         pred_root=pred_path,
+        pred_suffix=pred_suffix,
         thin=apply_thinning,
         gt_dir=gt_dir,  # NOTE: we can change the directory where the preprocessed GTs are located
     )
-- 
2.43.0


From 46474ccad929334a57d263fd56be51b6e4011dfe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 09/35] fix: mp_instance_mask2edge splits the instance ids of
 labels below 10

Pad them to five digits as loop_instance_mask2edge does.
---
 pyEdgeEval/edge_tools/mask2edge_mp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/edge_tools/mask2edge_mp.py b/pyEdgeEval/edge_tools/mask2edge_mp.py
index 2b7a716..0ac322a 100644
--- a/pyEdgeEval/edge_tools/mask2edge_mp.py
+++ b/pyEdgeEval/edge_tools/mask2edge_mp.py
@@ -238,8 +238,9 @@ def mp_instance_mask2edge(
     for inst_label in _cand_insts:
         if inst_label < inst_labels[0] * 1000:  # 24000
             continue
-        _label = int(str(inst_label)[:2])
-        _inst = int(str(inst_label)[2:])
+        inst_label = str(inst_label).zfill(5)
+        _label = int(inst_label[:2])
+        _inst = int(inst_label[2:])
         if _label not in label_inst.keys():
             label_inst[_label] = [_inst]
         else:
-- 
2.43.0


From cf906f854f48be7f0c6cb74fdf15ef4a37135e25 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 10/35] fix: mask2onehot accepts masks with fewer rows than
 labels

The assertion compared the mask height with the number of labels.
---
 pyEdgeEval/utils/convert_formats.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 2993621..9213f12 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -8,13 +8,9 @@ def mask2onehot(mask, labels):
     Converts a segmentation mask (H,W) to (K,H,W) where the last dim is a one
     hot encoding vector
     """
-    c = mask.shape[0]
     assert (
         len(labels) > 0
     ), "`labels` should be a list with more than 1 elements"
-    assert c >= len(
-        labels
-    ), "tried to convert into onehot with more labels than the original mask"
     _mask = [mask == i for i in labels]
     return np.array(_mask).astype(np.uint8)
 
-- 
2.43.0


From 2145d02ba8237e3a5e19ba5c4fb66e688b5b32bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 11/35] fix: no boundaries from the scipy distance transform
 without background

distance_transform_edt is arbitrary when there is no zero pixel: a mask that
covers the whole image got boundaries, unlike with cv2.
---
 pyEdgeEval/utils/distance_transforms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 05add88..15ef28a 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -7,6 +7,13 @@ from scipy.ndimage.morphology import distance_transform_edt
 __all__ = ["mask2bdry"]
 
 
+def _scipy_edt(m):
+    """Distance to the closest zero pixel (infinite when there is none)"""
+    if np.all(m):
+        return np.full(m.shape, np.inf)
+    return distance_transform_edt(m)
+
+
 def cv2_mask2bdry(m, ignore_mask, radius, quality):
     inner = cv2.distanceTransform(
         ((m + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
@@ -22,8 +29,8 @@ def cv2_mask2bdry(m, ignore_mask, radius, quality):
 
 
 def scipy_mask2bdry(m, ignore_mask, radius):
-    inner = distance_transform_edt((m + ignore_mask) > 0)
-    outer = distance_transform_edt(1.0 - m)
+    inner = _scipy_edt((m + ignore_mask) > 0)
+    outer = _scipy_edt(1.0 - m)
     dist = outer + inner
 
     dist[dist > radius] = 0
@@ -44,7 +51,7 @@ def mask2internal(
             ((mask + ignore_mask) > 0).astype(np.uint8), cv2.DIST_L2, quality
         )
     else:
-        inner = distance_transform_edt((mask + ignore_mask) > 0)
+        inner = _scipy_edt((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
     return (inner > 0).astype(np.uint8)
-- 
2.43.0


From 6e8053ca1dab05c6e12ba7bbae81797f3b48e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 12/35] fix: AP averages over all 101 recall levels

The sum left recall 1.0 out but was divided by 101: a perfect detector had an
AP of 0.99.
---
 pyEdgeEval/common/binary_label/calculate_metrics.py | 2 +-
 pyEdgeEval/common/multi_label/calculate_metrics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/common/binary_label/calculate_metrics.py b/pyEdgeEval/common/binary_label/calculate_metrics.py
index 0331197..4b20d5c 100644
--- a/pyEdgeEval/common/binary_label/calculate_metrics.py
+++ b/pyEdgeEval/common/binary_label/calculate_metrics.py
@@ -137,7 +137,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
diff --git a/pyEdgeEval/common/multi_label/calculate_metrics.py b/pyEdgeEval/common/multi_label/calculate_metrics.py
index 36f0e05..371e1c4 100644
--- a/pyEdgeEval/common/multi_label/calculate_metrics.py
+++ b/pyEdgeEval/common/multi_label/calculate_metrics.py
@@ -140,7 +140,7 @@ def calculate_metrics(
 
     # Calculate AP
     ap = 0
-    for t in np.arange(0, 1, 0.01):
+    for t in np.linspace(0, 1, 101):
         _r = rec_overall >= t
         p = np.max(prec_overall[_r], initial=0)
         ap = ap + p / 101
-- 
2.43.0


From 48de603e12809c844cedf437786bd5d74d56b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 13/35] fix: SBD post-seal evaluation honours max_dist

--max-dist was silently ignored (the default stays 0.02); the Cityscapes
evaluators already honour it.
---
 pyEdgeEval/evaluators/sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/evaluators/sbd.py b/pyEdgeEval/evaluators/sbd.py
index 873a674..56a05d9 100644
--- a/pyEdgeEval/evaluators/sbd.py
+++ b/pyEdgeEval/evaluators/sbd.py
@@ -157,7 +157,7 @@ class SBDEvaluator(BaseMultilabelEvaluator):
             self.instance_sensitive = False
         elif eval_mode == "post-seal":
             print_log("Using Post-SEAL params", logger=self._logger)
-            self.max_dist = 0.02
+            self.max_dist = max_dist
             if instance_sensitive:
                 self.instance_sensitive = True
                 self.kill_internal = False
-- 
2.43.0


From 202bba9b5f3dcb8b1f193652b348423847acf497 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 14/35] fix: kill_internal uses the evaluated category of the
 SBD segmentation

SBD's labelIds start from 1 (0 is the background).
---
 pyEdgeEval/datasets/sbd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/datasets/sbd.py b/pyEdgeEval/datasets/sbd.py
index 6c86c74..a4874d4 100644
--- a/pyEdgeEval/datasets/sbd.py
+++ b/pyEdgeEval/datasets/sbd.py
@@ -62,7 +62,7 @@ def _evaluate_single(
 
         # need to be careful where the category starts
         # some datasets will skip 0 and start from 1 (like sbd)
-        cat_seg = seg == cat_idx
+        cat_seg = seg == category
     else:
         cat_seg = None
 
-- 
2.43.0


From fc21d8ae09db4e55365e2d54932144bcd0ef13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 15/35] fix: Cityscapes conversion writes next to gtFine
 whatever the root is called

Replace only the gtFine directory itself, not an earlier part of the path.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 1972cac..73ce560 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -48,7 +48,7 @@ def convert_json_to_label(
 ) -> None:
     json_dir = osp.dirname(json_file)
     json_fn = osp.basename(json_file)
-    proc_dir = json_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(json_dir.rsplit("gtFine", 1))
     proc_fn = json_fn.replace(poly_suffix, id_suffix)
     mkdir_or_exist(proc_dir)
     proc_file = osp.join(proc_dir, proc_fn)
@@ -97,7 +97,7 @@ def convert_label_to_semantic_edges(
         assert radius == 1, "ERR: `thin` requires radius=1"
     label_dir = osp.dirname(label_file)
     label_fn = osp.basename(label_file)
-    proc_dir = label_dir.replace("gtFine", proc_dir)
+    proc_dir = proc_dir.join(label_dir.rsplit("gtFine", 1))
     proc_fn = label_fn.replace(label_suffix, edge_suffix)
 
     mkdir_or_exist(proc_dir)
-- 
2.43.0


From 6acd5e9ac27f033db8ed8990f3e8f41143154a9a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 16/35] fix: nms does not read outside of one pixel wide images

---
 pyEdgeEval/_lib/src/benms.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/src/benms.cc b/pyEdgeEval/_lib/src/benms.cc
index 68326e1..c5e1f39 100644
--- a/pyEdgeEval/_lib/src/benms.cc
+++ b/pyEdgeEval/_lib/src/benms.cc
@@ -15,7 +15,7 @@ inline double interp(const Matrix& I, int h, int w, double x, double y)
   x = x < 0 ? 0 : (x > w - 1.001 ? w - 1.001 : x);
   y = y < 0 ? 0 : (y > h - 1.001 ? h - 1.001 : y);
   int x0 = int(x), y0 = int(y);
-  int x1 = x0 + 1, y1 = y0 + 1;
+  int x1 = x0 + 1 < w ? x0 + 1 : x0, y1 = y0 + 1 < h ? y0 + 1 : y0;
   double dx0 = x - x0, dy0 = y - y0;
   double dx1 = 1 - dx0, dy1 = 1 - dy0;
   double out = I(y0, x0) * dx1 * dy1 +
-- 
2.43.0


From 90b26e146fe467139471039065822ca3c7773e11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 17/35] fix: correspond_pixels charges unmatched pixels when
 none can be matched

The cost was 0 instead of the outlier cost of every pixel.
---
 pyEdgeEval/_lib/src/match.cc | 734 ++++++++++++++++++-----------------
 1 file changed, 371 insertions(+), 363 deletions(-)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 92f022b..2324bf3 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -1,363 +1,371 @@
-
-#include <stdlib.h>
-#include <math.h>
-#include <vector>
-#include <algorithm>
-#include <stdio.h>
-#include "csa.hh"
-#include "kofn.hh"
-#include "Point.hh"
-#include "Matrix.hh"
-#include "Array.hh"
-#include "match.hh"
-#include "Timer.hh"
-
-struct Edge {
-    int i,j;	// node ids, 0-based
-    double w;	// distance between pixels
-};
-
-// CSA code needs integer weights.  Use this multiplier to convert
-// floating-point weights to integers.
-static const int multiplier = 100;
-
-// The degree of outlier connections.
-static const int degree = 6;
-
-double 
-matchEdgeMaps (
-    const Matrix& bmap1, const Matrix& bmap2,
-    double maxDist, double outlierCost,
-    Matrix& m1, Matrix& m2)
-{
-    // Check global constants.
-    assert (degree > 0);
-    assert (multiplier > 0);
-
-    // Check arguments.
-    assert (bmap1.nrows() == bmap2.nrows());
-    assert (bmap1.ncols() == bmap2.ncols());
-    assert (maxDist >= 0);
-    assert (outlierCost > maxDist);
-    
-    const int height = bmap1.nrows();
-    const int width = bmap1.ncols();
-
-    // Initialize to zeros.
-    m1 = Matrix(height,width);
-    m2 = Matrix(height,width);
-
-    // Initialize match[12] arrays to (-1,-1).
-    Array2D<Pixel> match1 (width,height);
-    Array2D<Pixel> match2 (width,height);
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            match1(x,y) = Pixel(-1,-1);
-            match2(x,y) = Pixel(-1,-1);
-        }
-    }
-
-    // Radius of search window.
-    const int r = (int) ceil (maxDist);	
-
-    // Figure out which nodes are matchable, i.e. within maxDist
-    // of another node.
-    Array2D<bool> matchable1 (width,height);
-    Array2D<bool> matchable2 (width,height);
-    matchable1.init(false);
-    matchable2.init(false);
-    for (int y1 = 0; y1 < height; y1++) {
-        for (int x1 = 0; x1 < width; x1++) {
-            if (!bmap1(y1,x1)) { continue; }
-            for (int v = -r; v <= r; v++) {
-                for (int u = -r; u <= r; u++) {
-                    const double d2 = u*u + v*v;
-                    if (d2 > maxDist*maxDist) { continue; }
-                    const int x2 = x1 + u;
-                    const int y2 = y1 + v;
-                    if (x2 < 0 || x2 >= width) { continue; }
-                    if (y2 < 0 || y2 >= height) { continue; }
-                    if (!bmap2(y2,x2)) { continue; }
-                    matchable1(x1,y1) = true;
-                    matchable2(x2,y2) = true;
-                }
-            }
-        }
-    }
-
-    // Count the number of nodes on each side of the match.
-    // Construct nodeID->pixel and pixel->nodeID maps.
-    // Node IDs range from [0,n1) and [0,n2).
-    int n1=0, n2=0;
-    std::vector<Pixel> nodeToPix1;
-    std::vector<Pixel> nodeToPix2;
-    Array2D<int> pixToNode1 (width,height);
-    Array2D<int> pixToNode2 (width,height);
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            pixToNode1(x,y) = -1;
-            pixToNode2(x,y) = -1;
-            Pixel pix (x,y);
-            if (matchable1(x,y)) {
-                pixToNode1(x,y) = n1;
-                nodeToPix1.push_back(pix);
-                n1++;
-            }
-            if (matchable2(x,y)) {
-                pixToNode2(x,y) = n2;
-                nodeToPix2.push_back(pix);
-                n2++;
-            }
-        }
-    }
-
-    // Construct the list of edges between pixels within maxDist.
-    std::vector<Edge> edges;
-    for (int x1 = 0; x1 < width; x1++) {
-        for (int y1 = 0; y1 < height; y1++) {
-            if (!matchable1(x1,y1)) { continue; }
-            for (int u = -r; u <= r; u++) {
-                for (int v = -r; v <= r; v++) {
-                    const double d2 = u*u + v*v;
-                    if (d2 > maxDist*maxDist) { continue; }
-                    const int x2 = x1 + u;
-                    const int y2 = y1 + v;
-                    if (x2 < 0 || x2 >= width) { continue; }
-                    if (y2 < 0 || y2 >= height) { continue; }
-                    if (!matchable2(x2,y2)) { continue; }
-                    Edge e; 
-                    e.i = pixToNode1(x1,y1);
-                    e.j = pixToNode2(x2,y2);
-                    e.w = sqrt(d2);
-                    assert (e.i >= 0 && e.i < n1);
-                    assert (e.j >= 0 && e.j < n2);
-                    assert (e.w < outlierCost);
-                    edges.push_back(e);
-                }
-            }
-        }
-    }
-
-    // The cardinality of the match is n.
-    const int n = n1 + n2;
-    const int nmin = std::min(n1,n2);
-    const int nmax = std::max(n1,n2);
-
-    // Compute the degree of various outlier connections.
-    const int d1 = std::max(0,std::min(degree,n1-1)); // from map1
-    const int d2 = std::max(0,std::min(degree,n2-1)); // from map2
-    const int d3 = std::min(degree,std::min(n1,n2)); // between outliers
-    const int dmax = std::max(d1,std::max(d2,d3));
-
-    assert (n1 == 0 || (d1 >= 0 && d1 < n1));
-    assert (n2 == 0 || (d2 >= 0 && d2 < n2));
-    assert (d3 >= 0 && d3 <= nmin);
-
-    // Count the number of edges.
-    int m = 0;
-    m += edges.size(); 	// real connections
-    m += d1 * n1;	// outlier connections
-    m += d2 * n2;	// outlier connections
-    m += d3 * nmax;	// outlier-outlier connections
-    m += n; 		// high-cost perfect match overlay
-
-    // If the graph is empty, then there's nothing to do.
-    if (m == 0) {
-        return 0;
-    }
-
-    // Weight of outlier connections.
-    const int ow = (int) ceil (outlierCost * multiplier);
-
-    // Scratch array for outlier edges.
-    Array1D<int> outliers (dmax);
-
-    // Construct the input graph for the assignment problem.
-    Array2D<int> igraph (m,3);
-    int count = 0;
-    // real edges
-    for (int a = 0; a < (int)edges.size(); a++) {
-        int i = edges[a].i;
-        int j = edges[a].j;
-        assert (i >= 0 && i < n1);
-        assert (j >= 0 && j < n2);
-        igraph(count,0) = i;
-        igraph(count,1) = j;
-        igraph(count,2) = (int) rint (edges[a].w * multiplier);
-        count++;
-    }
-    // outliers edges for map1, exclude diagonal
-    for (int i = 0; i < n1; i++) {
-        kOfN(d1,n1-1,outliers.data());
-        for (int a = 0; a < d1; a++) {
-            int j = outliers(a);
-            if (j >= i) { j++; }
-            assert (i != j);
-            assert (j >= 0 && j < n1);
-            igraph(count,0) = i;
-            igraph(count,1) = n2 + j;
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // outliers edges for map2, exclude diagonal
-    for (int j = 0; j < n2; j++) {
-        kOfN(d2,n2-1,outliers.data());
-        for (int a = 0; a < d2; a++) {
-            int i = outliers(a);
-            if (i >= j) { i++; }
-            assert (i != j);
-            assert (i >= 0 && i < n2);
-            igraph(count,0) = n1 + i;
-            igraph(count,1) = j;
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // outlier-to-outlier edges
-    for (int i = 0; i < nmax; i++) {
-        kOfN(d3,nmin,outliers.data());
-        for (int a = 0; a < d3; a++) {
-            const int j = outliers(a);
-            assert (j >= 0 && j < nmin);
-            if (n1 < n2) {
-                assert (i >= 0 && i < n2);
-                assert (j >= 0 && j < n1);
-                igraph(count,0) = n1 + i;
-                igraph(count,1) = n2 + j;
-            } else {
-                assert (i >= 0 && i < n1);
-                assert (j >= 0 && j < n2);
-                igraph(count,0) = n1 + j;
-                igraph(count,1) = n2 + i;
-            }
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // perfect match overlay (diagonal)
-    for (int i = 0; i < n1; i++) {
-        igraph(count,0) = i;
-        igraph(count,1) = n2 + i;
-        igraph(count,2) = ow * multiplier;
-        count++;
-    }
-    for (int i = 0; i < n2; i++) {
-        igraph(count,0) = n1 + i;
-        igraph(count,1) = i;
-        igraph(count,2) = ow * multiplier;
-        count++;
-    }
-    assert (count == m);
-
-    // Check all the edges, and set the values up for CSA.
-    for (int i = 0; i < m; i++) {
-        assert(igraph(i,0) >= 0 && igraph(i,0) < n);
-        assert(igraph(i,1) >= 0 && igraph(i,1) < n);
-        igraph(i,0) += 1;
-        igraph(i,1) += 1+n;
-    }
-
-    // Solve the assignment problem.
-    CSA csa(2*n,m,igraph.data());
-    assert(csa.edges()==n);
-
-    Array2D<int> ograph (n,3);
-    for (int i = 0; i < n; i++) {
-        int a,b,c;
-        csa.edge(i,a,b,c);
-        ograph(i,0)=a-1; ograph(i,1)=b-1-n; ograph(i,2)=c;
-    }
-
-    // Check the solution.
-    // Count the number of high-cost edges from the perfect match
-    // overlay that were used in the match.
-    int overlayCount = 0;
-    for (int a = 0; a < n; a++) {
-        const int i = ograph(a,0);
-        const int j = ograph(a,1);
-        const int c = ograph(a,2);
-        assert (i >= 0 && i < n);
-        assert (j >= 0 && j < n);
-        assert (c >= 0);
-        // edge from high-cost perfect match overlay
-        if (c == ow * multiplier) { overlayCount++; }
-        // skip outlier edges
-        if (i >= n1) { continue; }
-        if (j >= n2) { continue; }
-        // for edges between real nodes, check the edge weight
-        const Pixel pix1 = nodeToPix1[i];
-        const Pixel pix2 = nodeToPix2[j];
-        const int dx = pix1.x - pix2.x;
-        const int dy = pix1.y - pix2.y;
-        const int w = (int) rint (sqrt(dx*dx+dy*dy)*multiplier);
-        assert (w == c);
-    }
-
-    // Print a warning if any of the edges from the perfect match overlay
-    // were used.  This should happen rarely.  If it happens frequently,
-    // then the outlier connectivity should be increased.
-    if (overlayCount > 5) {
-        fprintf (stderr, "%s:%d: WARNING: The match includes %d "
-                 "outlier(s) from the perfect match overlay.\n",
-                 __FILE__, __LINE__, overlayCount);
-    }
-
-    // Compute match arrays.
-    for (int a = 0; a < n; a++) {
-        // node ids
-        const int i = ograph(a,0);
-        const int j = ograph(a,1);
-        // skip outlier edges
-        if (i >= n1) { continue; }
-        if (j >= n2) { continue; }
-        // map node ids to pixels
-        const Pixel pix1 = nodeToPix1[i];
-        const Pixel pix2 = nodeToPix2[j];
-        // record edges
-        match1(pix1.x,pix1.y) = pix2;
-        match2(pix2.x,pix2.y) = pix1;
-    }
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            if (bmap1(y,x)) {
-                if (match1(x,y) != Pixel(-1,-1)) {
-                    m1(y,x) = match1(x,y).x*height + match1(x,y).y + 1;
-                }
-            }
-            if (bmap2(y,x)) {
-                if (match2(x,y) != Pixel(-1,-1)) {
-                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;
-                }
-            }
-        }
-    }
-
-    // Compute the match cost.
-    double cost = 0;
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            if (bmap1(y,x)) {
-                if (match1(x,y) == Pixel(-1,-1)) {
-                    cost += outlierCost;
-                } else {
-                    const int dx = x - match1(x,y).x;
-                    const int dy = y - match1(x,y).y;
-                    cost += 0.5 * sqrt (dx*dx + dy*dy);
-                }
-            }
-            if (bmap2(y,x)) {
-                if (match2(x,y) == Pixel(-1,-1)) {
-                    cost += outlierCost;
-                } else {
-                    const int dx = x - match2(x,y).x;
-                    const int dy = y - match2(x,y).y;
-                    cost += 0.5 * sqrt (dx*dx + dy*dy);
-                }
-            }
-        }
-    }    
-
-    // Return the match cost.
-    return cost;
-}
+
+#include <stdlib.h>
+#include <math.h>
+#include <vector>
+#include <algorithm>
+#include <stdio.h>
+#include "csa.hh"
+#include "kofn.hh"
+#include "Point.hh"
+#include "Matrix.hh"
+#include "Array.hh"
+#include "match.hh"
+#include "Timer.hh"
+
+struct Edge {
+    int i,j;	// node ids, 0-based
+    double w;	// distance between pixels
+};
+
+// CSA code needs integer weights.  Use this multiplier to convert
+// floating-point weights to integers.
+static const int multiplier = 100;
+
+// The degree of outlier connections.
+static const int degree = 6;
+
+double 
+matchEdgeMaps (
+    const Matrix& bmap1, const Matrix& bmap2,
+    double maxDist, double outlierCost,
+    Matrix& m1, Matrix& m2)
+{
+    // Check global constants.
+    assert (degree > 0);
+    assert (multiplier > 0);
+
+    // Check arguments.
+    assert (bmap1.nrows() == bmap2.nrows());
+    assert (bmap1.ncols() == bmap2.ncols());
+    assert (maxDist >= 0);
+    assert (outlierCost > maxDist);
+    
+    const int height = bmap1.nrows();
+    const int width = bmap1.ncols();
+
+    // Initialize to zeros.
+    m1 = Matrix(height,width);
+    m2 = Matrix(height,width);
+
+    // Initialize match[12] arrays to (-1,-1).
+    Array2D<Pixel> match1 (width,height);
+    Array2D<Pixel> match2 (width,height);
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            match1(x,y) = Pixel(-1,-1);
+            match2(x,y) = Pixel(-1,-1);
+        }
+    }
+
+    // Radius of search window.
+    const int r = (int) ceil (maxDist);	
+
+    // Figure out which nodes are matchable, i.e. within maxDist
+    // of another node.
+    Array2D<bool> matchable1 (width,height);
+    Array2D<bool> matchable2 (width,height);
+    matchable1.init(false);
+    matchable2.init(false);
+    for (int y1 = 0; y1 < height; y1++) {
+        for (int x1 = 0; x1 < width; x1++) {
+            if (!bmap1(y1,x1)) { continue; }
+            for (int v = -r; v <= r; v++) {
+                for (int u = -r; u <= r; u++) {
+                    const double d2 = u*u + v*v;
+                    if (d2 > maxDist*maxDist) { continue; }
+                    const int x2 = x1 + u;
+                    const int y2 = y1 + v;
+                    if (x2 < 0 || x2 >= width) { continue; }
+                    if (y2 < 0 || y2 >= height) { continue; }
+                    if (!bmap2(y2,x2)) { continue; }
+                    matchable1(x1,y1) = true;
+                    matchable2(x2,y2) = true;
+                }
+            }
+        }
+    }
+
+    // Count the number of nodes on each side of the match.
+    // Construct nodeID->pixel and pixel->nodeID maps.
+    // Node IDs range from [0,n1) and [0,n2).
+    int n1=0, n2=0;
+    std::vector<Pixel> nodeToPix1;
+    std::vector<Pixel> nodeToPix2;
+    Array2D<int> pixToNode1 (width,height);
+    Array2D<int> pixToNode2 (width,height);
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            pixToNode1(x,y) = -1;
+            pixToNode2(x,y) = -1;
+            Pixel pix (x,y);
+            if (matchable1(x,y)) {
+                pixToNode1(x,y) = n1;
+                nodeToPix1.push_back(pix);
+                n1++;
+            }
+            if (matchable2(x,y)) {
+                pixToNode2(x,y) = n2;
+                nodeToPix2.push_back(pix);
+                n2++;
+            }
+        }
+    }
+
+    // Construct the list of edges between pixels within maxDist.
+    std::vector<Edge> edges;
+    for (int x1 = 0; x1 < width; x1++) {
+        for (int y1 = 0; y1 < height; y1++) {
+            if (!matchable1(x1,y1)) { continue; }
+            for (int u = -r; u <= r; u++) {
+                for (int v = -r; v <= r; v++) {
+                    const double d2 = u*u + v*v;
+                    if (d2 > maxDist*maxDist) { continue; }
+                    const int x2 = x1 + u;
+                    const int y2 = y1 + v;
+                    if (x2 < 0 || x2 >= width) { continue; }
+                    if (y2 < 0 || y2 >= height) { continue; }
+                    if (!matchable2(x2,y2)) { continue; }
+                    Edge e; 
+                    e.i = pixToNode1(x1,y1);
+                    e.j = pixToNode2(x2,y2);
+                    e.w = sqrt(d2);
+                    assert (e.i >= 0 && e.i < n1);
+                    assert (e.j >= 0 && e.j < n2);
+                    assert (e.w < outlierCost);
+                    edges.push_back(e);
+                }
+            }
+        }
+    }
+
+    // The cardinality of the match is n.
+    const int n = n1 + n2;
+    const int nmin = std::min(n1,n2);
+    const int nmax = std::max(n1,n2);
+
+    // Compute the degree of various outlier connections.
+    const int d1 = std::max(0,std::min(degree,n1-1)); // from map1
+    const int d2 = std::max(0,std::min(degree,n2-1)); // from map2
+    const int d3 = std::min(degree,std::min(n1,n2)); // between outliers
+    const int dmax = std::max(d1,std::max(d2,d3));
+
+    assert (n1 == 0 || (d1 >= 0 && d1 < n1));
+    assert (n2 == 0 || (d2 >= 0 && d2 < n2));
+    assert (d3 >= 0 && d3 <= nmin);
+
+    // Count the number of edges.
+    int m = 0;
+    m += edges.size(); 	// real connections
+    m += d1 * n1;	// outlier connections
+    m += d2 * n2;	// outlier connections
+    m += d3 * nmax;	// outlier-outlier connections
+    m += n; 		// high-cost perfect match overlay
+
+    // If the graph is empty, then there's nothing to match:
+    // every pixel is an outlier.
+    if (m == 0) {
+        double cost = 0;
+        for (int x = 0; x < width; x++) {
+            for (int y = 0; y < height; y++) {
+                if (bmap1(y,x)) { cost += outlierCost; }
+                if (bmap2(y,x)) { cost += outlierCost; }
+            }
+        }
+        return cost;
+    }
+
+    // Weight of outlier connections.
+    const int ow = (int) ceil (outlierCost * multiplier);
+
+    // Scratch array for outlier edges.
+    Array1D<int> outliers (dmax);
+
+    // Construct the input graph for the assignment problem.
+    Array2D<int> igraph (m,3);
+    int count = 0;
+    // real edges
+    for (int a = 0; a < (int)edges.size(); a++) {
+        int i = edges[a].i;
+        int j = edges[a].j;
+        assert (i >= 0 && i < n1);
+        assert (j >= 0 && j < n2);
+        igraph(count,0) = i;
+        igraph(count,1) = j;
+        igraph(count,2) = (int) rint (edges[a].w * multiplier);
+        count++;
+    }
+    // outliers edges for map1, exclude diagonal
+    for (int i = 0; i < n1; i++) {
+        kOfN(d1,n1-1,outliers.data());
+        for (int a = 0; a < d1; a++) {
+            int j = outliers(a);
+            if (j >= i) { j++; }
+            assert (i != j);
+            assert (j >= 0 && j < n1);
+            igraph(count,0) = i;
+            igraph(count,1) = n2 + j;
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // outliers edges for map2, exclude diagonal
+    for (int j = 0; j < n2; j++) {
+        kOfN(d2,n2-1,outliers.data());
+        for (int a = 0; a < d2; a++) {
+            int i = outliers(a);
+            if (i >= j) { i++; }
+            assert (i != j);
+            assert (i >= 0 && i < n2);
+            igraph(count,0) = n1 + i;
+            igraph(count,1) = j;
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // outlier-to-outlier edges
+    for (int i = 0; i < nmax; i++) {
+        kOfN(d3,nmin,outliers.data());
+        for (int a = 0; a < d3; a++) {
+            const int j = outliers(a);
+            assert (j >= 0 && j < nmin);
+            if (n1 < n2) {
+                assert (i >= 0 && i < n2);
+                assert (j >= 0 && j < n1);
+                igraph(count,0) = n1 + i;
+                igraph(count,1) = n2 + j;
+            } else {
+                assert (i >= 0 && i < n1);
+                assert (j >= 0 && j < n2);
+                igraph(count,0) = n1 + j;
+                igraph(count,1) = n2 + i;
+            }
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // perfect match overlay (diagonal)
+    for (int i = 0; i < n1; i++) {
+        igraph(count,0) = i;
+        igraph(count,1) = n2 + i;
+        igraph(count,2) = ow * multiplier;
+        count++;
+    }
+    for (int i = 0; i < n2; i++) {
+        igraph(count,0) = n1 + i;
+        igraph(count,1) = i;
+        igraph(count,2) = ow * multiplier;
+        count++;
+    }
+    assert (count == m);
+
+    // Check all the edges, and set the values up for CSA.
+    for (int i = 0; i < m; i++) {
+        assert(igraph(i,0) >= 0 && igraph(i,0) < n);
+        assert(igraph(i,1) >= 0 && igraph(i,1) < n);
+        igraph(i,0) += 1;
+        igraph(i,1) += 1+n;
+    }
+
+    // Solve the assignment problem.
+    CSA csa(2*n,m,igraph.data());
+    assert(csa.edges()==n);
+
+    Array2D<int> ograph (n,3);
+    for (int i = 0; i < n; i++) {
+        int a,b,c;
+        csa.edge(i,a,b,c);
+        ograph(i,0)=a-1; ograph(i,1)=b-1-n; ograph(i,2)=c;
+    }
+
+    // Check the solution.
+    // Count the number of high-cost edges from the perfect match
+    // overlay that were used in the match.
+    int overlayCount = 0;
+    for (int a = 0; a < n; a++) {
+        const int i = ograph(a,0);
+        const int j = ograph(a,1);
+        const int c = ograph(a,2);
+        assert (i >= 0 && i < n);
+        assert (j >= 0 && j < n);
+        assert (c >= 0);
+        // edge from high-cost perfect match overlay
+        if (c == ow * multiplier) { overlayCount++; }
+        // skip outlier edges
+        if (i >= n1) { continue; }
+        if (j >= n2) { continue; }
+        // for edges between real nodes, check the edge weight
+        const Pixel pix1 = nodeToPix1[i];
+        const Pixel pix2 = nodeToPix2[j];
+        const int dx = pix1.x - pix2.x;
+        const int dy = pix1.y - pix2.y;
+        const int w = (int) rint (sqrt(dx*dx+dy*dy)*multiplier);
+        assert (w == c);
+    }
+
+    // Print a warning if any of the edges from the perfect match overlay
+    // were used.  This should happen rarely.  If it happens frequently,
+    // then the outlier connectivity should be increased.
+    if (overlayCount > 5) {
+        fprintf (stderr, "%s:%d: WARNING: The match includes %d "
+                 "outlier(s) from the perfect match overlay.\n",
+                 __FILE__, __LINE__, overlayCount);
+    }
+
+    // Compute match arrays.
+    for (int a = 0; a < n; a++) {
+        // node ids
+        const int i = ograph(a,0);
+        const int j = ograph(a,1);
+        // skip outlier edges
+        if (i >= n1) { continue; }
+        if (j >= n2) { continue; }
+        // map node ids to pixels
+        const Pixel pix1 = nodeToPix1[i];
+        const Pixel pix2 = nodeToPix2[j];
+        // record edges
+        match1(pix1.x,pix1.y) = pix2;
+        match2(pix2.x,pix2.y) = pix1;
+    }
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            if (bmap1(y,x)) {
+                if (match1(x,y) != Pixel(-1,-1)) {
+                    m1(y,x) = match1(x,y).x*height + match1(x,y).y + 1;
+                }
+            }
+            if (bmap2(y,x)) {
+                if (match2(x,y) != Pixel(-1,-1)) {
+                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;
+                }
+            }
+        }
+    }
+
+    // Compute the match cost.
+    double cost = 0;
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            if (bmap1(y,x)) {
+                if (match1(x,y) == Pixel(-1,-1)) {
+                    cost += outlierCost;
+                } else {
+                    const int dx = x - match1(x,y).x;
+                    const int dy = y - match1(x,y).y;
+                    cost += 0.5 * sqrt (dx*dx + dy*dy);
+                }
+            }
+            if (bmap2(y,x)) {
+                if (match2(x,y) == Pixel(-1,-1)) {
+                    cost += outlierCost;
+                } else {
+                    const int dx = x - match2(x,y).x;
+                    const int dy = y - match2(x,y).y;
+                    cost += 0.5 * sqrt (dx*dx + dy*dy);
+                }
+            }
+        }
+    }    
+
+    // Return the match cost.
+    return cost;
+}
-- 
2.43.0


From 2c43d4e354bed40fa88d9a554e9e61c84369a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 18/35] fix: total assignment cost of large edge maps does not
 overflow int

---
 pyEdgeEval/_lib/include/csa.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/_lib/include/csa.hh b/pyEdgeEval/_lib/include/csa.hh
index 2289d1f..c67a6bf 100644
--- a/pyEdgeEval/_lib/include/csa.hh
+++ b/pyEdgeEval/_lib/include/csa.hh
@@ -39,7 +39,7 @@ public:
     int edges () { return result_n; }
 
     // total cost of the assignment
-    int cost () { return result_cost; }
+    double cost () { return result_cost; }
 
     // info for edge i of the assignment
     // node labels are in [1,n]
@@ -60,7 +60,7 @@ private:
     int* result_a;
     int* result_b;
     int* result_costs;
-    int result_cost;
+    double result_cost;
 
     void _init(int n, int m) {
         result_n = 0;
-- 
2.43.0


From a55c703997720c7cefca9fc7bf3bf79af6b95a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 19/35] fix: mask_label2trainId converts (H, W, 1) masks

---
 pyEdgeEval/utils/convert_formats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyEdgeEval/utils/convert_formats.py b/pyEdgeEval/utils/convert_formats.py
index 9213f12..8bda541 100644
--- a/pyEdgeEval/utils/convert_formats.py
+++ b/pyEdgeEval/utils/convert_formats.py
@@ -52,6 +52,7 @@ def mask_label2trainId(mask: np.ndarray, label2trainId: dict) -> np.ndarray:
     elif len(mask.shape) == 3:
         h, w, c = mask.shape
         assert c == 1, f"ERR: input label has {c} channels which should be 1"
+        mask = mask[:, :, 0]
     else:
         raise ValueError()
 
-- 
2.43.0


From e8fae34de5685329b9764a4166818f6d9d0dcbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 20/35] fix: PR curve plots accept results with at most one
 usable threshold

A result file with a single threshold was loaded as a one-dimensional array, and
an algorithm without any recall has no precision to interpolate.
---
 pyEdgeEval/visualization/pr_curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/visualization/pr_curve.py b/pyEdgeEval/visualization/pr_curve.py
index 6fd0c7a..9ae57d7 100644
--- a/pyEdgeEval/visualization/pr_curve.py
+++ b/pyEdgeEval/visualization/pr_curve.py
@@ -53,7 +53,7 @@ def _isometric_contour_line_template(
 
 def _load_threshold_data(data_path):
     assert os.path.exists(data_path), f"ERR: {data_path} doesn't exist"
-    pr = np.loadtxt(data_path)
+    pr = np.loadtxt(data_path, ndmin=2)
     pr = pr[pr[:, 1] >= 1e-3]
     return pr
 
@@ -65,6 +65,8 @@ def _load_overall_results(data_path):
 
 
 def _calc_r50(pr):
+    if len(pr) == 0:
+        return np.nan
     _, o = np.unique(pr[:, 2], return_index=True)
     r50 = interp1d(
         pr[o, 2],
-- 
2.43.0


From 41ba00c7fd576a5f70e3cde205f166667667e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 21/35] fix: sparse2numpy accepts the csc_array newer scipy
 loads

---
 pyEdgeEval/utils/mat_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyEdgeEval/utils/mat_utils.py b/pyEdgeEval/utils/mat_utils.py
index 7b4c518..a8915af 100644
--- a/pyEdgeEval/utils/mat_utils.py
+++ b/pyEdgeEval/utils/mat_utils.py
@@ -4,7 +4,7 @@ import os
 
 # libraries used for .mat io
 from scipy.io import loadmat as scipy_loadmat
-from scipy.sparse import csc_matrix
+from scipy.sparse import csc_matrix, issparse
 
 try:
     # prefer `pymatreader`
@@ -35,7 +35,8 @@ def loadmat(
 
 def sparse2numpy(data: csc_matrix):
     """helper function to convert compressed sparse column matrix to numpy array"""
-    assert isinstance(
-        data, csc_matrix
+    # NOTE: newer versions of scipy load sparse arrays (`csc_array`)
+    assert (
+        issparse(data) and data.format == "csc"
     ), f"ERR: input is not csc_matrix, but got {type(data)}"
     return data.toarray()
-- 
2.43.0


From dfbbfb2d8b99c477bc56c5916e44fa8a1e1ed623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 22/35] fix: new .mat loader reads annotations with a single
 instance

---
 pyEdgeEval/helpers/convert_sbd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 59ac25d..dd3524c 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -9,6 +9,7 @@ from typing import Optional
 
 import numpy as np
 from PIL import Image
+from scipy.sparse import issparse
 
 from pyEdgeEval.common.multi_label import (
     rgb_multilabel_encoding,
@@ -81,6 +82,9 @@ def load_sbd_gt_inst_mat(path: str, new_loader: bool = False):
         gt = loadmat(path, True)["GTinst"]
         segmentation = gt["Segmentation"]
         boundaries = gt["Boundaries"]
+        if issparse(boundaries):
+            # single instance
+            boundaries = [boundaries]
         categories = gt["Categories"]
         if isinstance(categories, int):
             categories = np.array([categories])
-- 
2.43.0


From 2dd1f9ac28766c9ffde125d359f1b2b0e6cdce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 23/35] fix: SBD instance ids are written as 16 bit PNG

---
 pyEdgeEval/helpers/convert_sbd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index dd3524c..22c440d 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -356,7 +356,8 @@ def routine(
         train_img.save(osp.join(save_dir, f"{sample_name}{train_suffix}"))
 
         # save instance
-        inst_img = Image.fromarray(inst)
+        # NOTE: Pillow only writes 16 bit PNGs (ids are below 21000)
+        inst_img = Image.fromarray(inst.astype(np.uint16))
         inst_img.save(osp.join(save_dir, f"{sample_name}{inst_suffix}"))
 
 
-- 
2.43.0


From 0038d4b76372867f464a420227889bf1b8620f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 24/35] fix: evaluate_reanno_sbd calls evaluate_reanno with its
 arguments

---
 pyEdgeEval/helpers/evaluate_sbd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyEdgeEval/helpers/evaluate_sbd.py b/pyEdgeEval/helpers/evaluate_sbd.py
index 8543686..0925462 100644
--- a/pyEdgeEval/helpers/evaluate_sbd.py
+++ b/pyEdgeEval/helpers/evaluate_sbd.py
@@ -368,7 +368,6 @@ def evaluate_reanno_sbd(gt_dir: str = "gtEval"):
         apply_thinning=apply_thinning,
         apply_nms=args.apply_nms,
         nonIS=args.nonIS,
-        max_dist=args.max_dist,
         thresholds=args.thresholds,
         nproc=args.nproc,
     )
-- 
2.43.0


From 66334ca8a0f9ed2cc3261a9d0dc8c5f8e58ef306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 25/35] fix: internal edges are only marked inside the mask

---
 pyEdgeEval/utils/distance_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyEdgeEval/utils/distance_transforms.py b/pyEdgeEval/utils/distance_transforms.py
index 15ef28a..94b82b8 100644
--- a/pyEdgeEval/utils/distance_transforms.py
+++ b/pyEdgeEval/utils/distance_transforms.py
@@ -54,6 +54,8 @@ def mask2internal(
         inner = _scipy_edt((mask + ignore_mask) > 0)
 
     inner[inner > radius] = 0
+    # ignored pixels outside of the mask are not internal edges
+    inner[mask == 0] = 0
     return (inner > 0).astype(np.uint8)
 
 
-- 
2.43.0


From f60e1f002f05f1305bdb635b94df45e378ed6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 26/35] fix: restore the line endings of match.cc

---
 pyEdgeEval/_lib/src/match.cc | 742 +++++++++++++++++------------------
 1 file changed, 371 insertions(+), 371 deletions(-)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 2324bf3..6b26406 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -1,371 +1,371 @@
-
-#include <stdlib.h>
-#include <math.h>
-#include <vector>
-#include <algorithm>
-#include <stdio.h>
-#include "csa.hh"
-#include "kofn.hh"
-#include "Point.hh"
-#include "Matrix.hh"
-#include "Array.hh"
-#include "match.hh"
-#include "Timer.hh"
-
-struct Edge {
-    int i,j;	// node ids, 0-based
-    double w;	// distance between pixels
-};
-
-// CSA code needs integer weights.  Use this multiplier to convert
-// floating-point weights to integers.
-static const int multiplier = 100;
-
-// The degree of outlier connections.
-static const int degree = 6;
-
-double 
-matchEdgeMaps (
-    const Matrix& bmap1, const Matrix& bmap2,
-    double maxDist, double outlierCost,
-    Matrix& m1, Matrix& m2)
-{
-    // Check global constants.
-    assert (degree > 0);
-    assert (multiplier > 0);
-
-    // Check arguments.
-    assert (bmap1.nrows() == bmap2.nrows());
-    assert (bmap1.ncols() == bmap2.ncols());
-    assert (maxDist >= 0);
-    assert (outlierCost > maxDist);
-    
-    const int height = bmap1.nrows();
-    const int width = bmap1.ncols();
-
-    // Initialize to zeros.
-    m1 = Matrix(height,width);
-    m2 = Matrix(height,width);
-
-    // Initialize match[12] arrays to (-1,-1).
-    Array2D<Pixel> match1 (width,height);
-    Array2D<Pixel> match2 (width,height);
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            match1(x,y) = Pixel(-1,-1);
-            match2(x,y) = Pixel(-1,-1);
-        }
-    }
-
-    // Radius of search window.
-    const int r = (int) ceil (maxDist);	
-
-    // Figure out which nodes are matchable, i.e. within maxDist
-    // of another node.
-    Array2D<bool> matchable1 (width,height);
-    Array2D<bool> matchable2 (width,height);
-    matchable1.init(false);
-    matchable2.init(false);
-    for (int y1 = 0; y1 < height; y1++) {
-        for (int x1 = 0; x1 < width; x1++) {
-            if (!bmap1(y1,x1)) { continue; }
-            for (int v = -r; v <= r; v++) {
-                for (int u = -r; u <= r; u++) {
-                    const double d2 = u*u + v*v;
-                    if (d2 > maxDist*maxDist) { continue; }
-                    const int x2 = x1 + u;
-                    const int y2 = y1 + v;
-                    if (x2 < 0 || x2 >= width) { continue; }
-                    if (y2 < 0 || y2 >= height) { continue; }
-                    if (!bmap2(y2,x2)) { continue; }
-                    matchable1(x1,y1) = true;
-                    matchable2(x2,y2) = true;
-                }
-            }
-        }
-    }
-
-    // Count the number of nodes on each side of the match.
-    // Construct nodeID->pixel and pixel->nodeID maps.
-    // Node IDs range from [0,n1) and [0,n2).
-    int n1=0, n2=0;
-    std::vector<Pixel> nodeToPix1;
-    std::vector<Pixel> nodeToPix2;
-    Array2D<int> pixToNode1 (width,height);
-    Array2D<int> pixToNode2 (width,height);
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            pixToNode1(x,y) = -1;
-            pixToNode2(x,y) = -1;
-            Pixel pix (x,y);
-            if (matchable1(x,y)) {
-                pixToNode1(x,y) = n1;
-                nodeToPix1.push_back(pix);
-                n1++;
-            }
-            if (matchable2(x,y)) {
-                pixToNode2(x,y) = n2;
-                nodeToPix2.push_back(pix);
-                n2++;
-            }
-        }
-    }
-
-    // Construct the list of edges between pixels within maxDist.
-    std::vector<Edge> edges;
-    for (int x1 = 0; x1 < width; x1++) {
-        for (int y1 = 0; y1 < height; y1++) {
-            if (!matchable1(x1,y1)) { continue; }
-            for (int u = -r; u <= r; u++) {
-                for (int v = -r; v <= r; v++) {
-                    const double d2 = u*u + v*v;
-                    if (d2 > maxDist*maxDist) { continue; }
-                    const int x2 = x1 + u;
-                    const int y2 = y1 + v;
-                    if (x2 < 0 || x2 >= width) { continue; }
-                    if (y2 < 0 || y2 >= height) { continue; }
-                    if (!matchable2(x2,y2)) { continue; }
-                    Edge e; 
-                    e.i = pixToNode1(x1,y1);
-                    e.j = pixToNode2(x2,y2);
-                    e.w = sqrt(d2);
-                    assert (e.i >= 0 && e.i < n1);
-                    assert (e.j >= 0 && e.j < n2);
-                    assert (e.w < outlierCost);
-                    edges.push_back(e);
-                }
-            }
-        }
-    }
-
-    // The cardinality of the match is n.
-    const int n = n1 + n2;
-    const int nmin = std::min(n1,n2);
-    const int nmax = std::max(n1,n2);
-
-    // Compute the degree of various outlier connections.
-    const int d1 = std::max(0,std::min(degree,n1-1)); // from map1
-    const int d2 = std::max(0,std::min(degree,n2-1)); // from map2
-    const int d3 = std::min(degree,std::min(n1,n2)); // between outliers
-    const int dmax = std::max(d1,std::max(d2,d3));
-
-    assert (n1 == 0 || (d1 >= 0 && d1 < n1));
-    assert (n2 == 0 || (d2 >= 0 && d2 < n2));
-    assert (d3 >= 0 && d3 <= nmin);
-
-    // Count the number of edges.
-    int m = 0;
-    m += edges.size(); 	// real connections
-    m += d1 * n1;	// outlier connections
-    m += d2 * n2;	// outlier connections
-    m += d3 * nmax;	// outlier-outlier connections
-    m += n; 		// high-cost perfect match overlay
-
-    // If the graph is empty, then there's nothing to match:
-    // every pixel is an outlier.
-    if (m == 0) {
-        double cost = 0;
-        for (int x = 0; x < width; x++) {
-            for (int y = 0; y < height; y++) {
-                if (bmap1(y,x)) { cost += outlierCost; }
-                if (bmap2(y,x)) { cost += outlierCost; }
-            }
-        }
-        return cost;
-    }
-
-    // Weight of outlier connections.
-    const int ow = (int) ceil (outlierCost * multiplier);
-
-    // Scratch array for outlier edges.
-    Array1D<int> outliers (dmax);
-
-    // Construct the input graph for the assignment problem.
-    Array2D<int> igraph (m,3);
-    int count = 0;
-    // real edges
-    for (int a = 0; a < (int)edges.size(); a++) {
-        int i = edges[a].i;
-        int j = edges[a].j;
-        assert (i >= 0 && i < n1);
-        assert (j >= 0 && j < n2);
-        igraph(count,0) = i;
-        igraph(count,1) = j;
-        igraph(count,2) = (int) rint (edges[a].w * multiplier);
-        count++;
-    }
-    // outliers edges for map1, exclude diagonal
-    for (int i = 0; i < n1; i++) {
-        kOfN(d1,n1-1,outliers.data());
-        for (int a = 0; a < d1; a++) {
-            int j = outliers(a);
-            if (j >= i) { j++; }
-            assert (i != j);
-            assert (j >= 0 && j < n1);
-            igraph(count,0) = i;
-            igraph(count,1) = n2 + j;
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // outliers edges for map2, exclude diagonal
-    for (int j = 0; j < n2; j++) {
-        kOfN(d2,n2-1,outliers.data());
-        for (int a = 0; a < d2; a++) {
-            int i = outliers(a);
-            if (i >= j) { i++; }
-            assert (i != j);
-            assert (i >= 0 && i < n2);
-            igraph(count,0) = n1 + i;
-            igraph(count,1) = j;
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // outlier-to-outlier edges
-    for (int i = 0; i < nmax; i++) {
-        kOfN(d3,nmin,outliers.data());
-        for (int a = 0; a < d3; a++) {
-            const int j = outliers(a);
-            assert (j >= 0 && j < nmin);
-            if (n1 < n2) {
-                assert (i >= 0 && i < n2);
-                assert (j >= 0 && j < n1);
-                igraph(count,0) = n1 + i;
-                igraph(count,1) = n2 + j;
-            } else {
-                assert (i >= 0 && i < n1);
-                assert (j >= 0 && j < n2);
-                igraph(count,0) = n1 + j;
-                igraph(count,1) = n2 + i;
-            }
-            igraph(count,2) = ow;
-            count++;
-        }
-    }
-    // perfect match overlay (diagonal)
-    for (int i = 0; i < n1; i++) {
-        igraph(count,0) = i;
-        igraph(count,1) = n2 + i;
-        igraph(count,2) = ow * multiplier;
-        count++;
-    }
-    for (int i = 0; i < n2; i++) {
-        igraph(count,0) = n1 + i;
-        igraph(count,1) = i;
-        igraph(count,2) = ow * multiplier;
-        count++;
-    }
-    assert (count == m);
-
-    // Check all the edges, and set the values up for CSA.
-    for (int i = 0; i < m; i++) {
-        assert(igraph(i,0) >= 0 && igraph(i,0) < n);
-        assert(igraph(i,1) >= 0 && igraph(i,1) < n);
-        igraph(i,0) += 1;
-        igraph(i,1) += 1+n;
-    }
-
-    // Solve the assignment problem.
-    CSA csa(2*n,m,igraph.data());
-    assert(csa.edges()==n);
-
-    Array2D<int> ograph (n,3);
-    for (int i = 0; i < n; i++) {
-        int a,b,c;
-        csa.edge(i,a,b,c);
-        ograph(i,0)=a-1; ograph(i,1)=b-1-n; ograph(i,2)=c;
-    }
-
-    // Check the solution.
-    // Count the number of high-cost edges from the perfect match
-    // overlay that were used in the match.
-    int overlayCount = 0;
-    for (int a = 0; a < n; a++) {
-        const int i = ograph(a,0);
-        const int j = ograph(a,1);
-        const int c = ograph(a,2);
-        assert (i >= 0 && i < n);
-        assert (j >= 0 && j < n);
-        assert (c >= 0);
-        // edge from high-cost perfect match overlay
-        if (c == ow * multiplier) { overlayCount++; }
-        // skip outlier edges
-        if (i >= n1) { continue; }
-        if (j >= n2) { continue; }
-        // for edges between real nodes, check the edge weight
-        const Pixel pix1 = nodeToPix1[i];
-        const Pixel pix2 = nodeToPix2[j];
-        const int dx = pix1.x - pix2.x;
-        const int dy = pix1.y - pix2.y;
-        const int w = (int) rint (sqrt(dx*dx+dy*dy)*multiplier);
-        assert (w == c);
-    }
-
-    // Print a warning if any of the edges from the perfect match overlay
-    // were used.  This should happen rarely.  If it happens frequently,
-    // then the outlier connectivity should be increased.
-    if (overlayCount > 5) {
-        fprintf (stderr, "%s:%d: WARNING: The match includes %d "
-                 "outlier(s) from the perfect match overlay.\n",
-                 __FILE__, __LINE__, overlayCount);
-    }
-
-    // Compute match arrays.
-    for (int a = 0; a < n; a++) {
-        // node ids
-        const int i = ograph(a,0);
-        const int j = ograph(a,1);
-        // skip outlier edges
-        if (i >= n1) { continue; }
-        if (j >= n2) { continue; }
-        // map node ids to pixels
-        const Pixel pix1 = nodeToPix1[i];
-        const Pixel pix2 = nodeToPix2[j];
-        // record edges
-        match1(pix1.x,pix1.y) = pix2;
-        match2(pix2.x,pix2.y) = pix1;
-    }
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            if (bmap1(y,x)) {
-                if (match1(x,y) != Pixel(-1,-1)) {
-                    m1(y,x) = match1(x,y).x*height + match1(x,y).y + 1;
-                }
-            }
-            if (bmap2(y,x)) {
-                if (match2(x,y) != Pixel(-1,-1)) {
-                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;
-                }
-            }
-        }
-    }
-
-    // Compute the match cost.
-    double cost = 0;
-    for (int x = 0; x < width; x++) {
-        for (int y = 0; y < height; y++) {
-            if (bmap1(y,x)) {
-                if (match1(x,y) == Pixel(-1,-1)) {
-                    cost += outlierCost;
-                } else {
-                    const int dx = x - match1(x,y).x;
-                    const int dy = y - match1(x,y).y;
-                    cost += 0.5 * sqrt (dx*dx + dy*dy);
-                }
-            }
-            if (bmap2(y,x)) {
-                if (match2(x,y) == Pixel(-1,-1)) {
-                    cost += outlierCost;
-                } else {
-                    const int dx = x - match2(x,y).x;
-                    const int dy = y - match2(x,y).y;
-                    cost += 0.5 * sqrt (dx*dx + dy*dy);
-                }
-            }
-        }
-    }    
-
-    // Return the match cost.
-    return cost;
-}
+
+#include <stdlib.h>
+#include <math.h>
+#include <vector>
+#include <algorithm>
+#include <stdio.h>
+#include "csa.hh"
+#include "kofn.hh"
+#include "Point.hh"
+#include "Matrix.hh"
+#include "Array.hh"
+#include "match.hh"
+#include "Timer.hh"
+
+struct Edge {
+    int i,j;	// node ids, 0-based
+    double w;	// distance between pixels
+};
+
+// CSA code needs integer weights.  Use this multiplier to convert
+// floating-point weights to integers.
+static const int multiplier = 100;
+
+// The degree of outlier connections.
+static const int degree = 6;
+
+double 
+matchEdgeMaps (
+    const Matrix& bmap1, const Matrix& bmap2,
+    double maxDist, double outlierCost,
+    Matrix& m1, Matrix& m2)
+{
+    // Check global constants.
+    assert (degree > 0);
+    assert (multiplier > 0);
+
+    // Check arguments.
+    assert (bmap1.nrows() == bmap2.nrows());
+    assert (bmap1.ncols() == bmap2.ncols());
+    assert (maxDist >= 0);
+    assert (outlierCost > maxDist);
+    
+    const int height = bmap1.nrows();
+    const int width = bmap1.ncols();
+
+    // Initialize to zeros.
+    m1 = Matrix(height,width);
+    m2 = Matrix(height,width);
+
+    // Initialize match[12] arrays to (-1,-1).
+    Array2D<Pixel> match1 (width,height);
+    Array2D<Pixel> match2 (width,height);
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            match1(x,y) = Pixel(-1,-1);
+            match2(x,y) = Pixel(-1,-1);
+        }
+    }
+
+    // Radius of search window.
+    const int r = (int) ceil (maxDist);	
+
+    // Figure out which nodes are matchable, i.e. within maxDist
+    // of another node.
+    Array2D<bool> matchable1 (width,height);
+    Array2D<bool> matchable2 (width,height);
+    matchable1.init(false);
+    matchable2.init(false);
+    for (int y1 = 0; y1 < height; y1++) {
+        for (int x1 = 0; x1 < width; x1++) {
+            if (!bmap1(y1,x1)) { continue; }
+            for (int v = -r; v <= r; v++) {
+                for (int u = -r; u <= r; u++) {
+                    const double d2 = u*u + v*v;
+                    if (d2 > maxDist*maxDist) { continue; }
+                    const int x2 = x1 + u;
+                    const int y2 = y1 + v;
+                    if (x2 < 0 || x2 >= width) { continue; }
+                    if (y2 < 0 || y2 >= height) { continue; }
+                    if (!bmap2(y2,x2)) { continue; }
+                    matchable1(x1,y1) = true;
+                    matchable2(x2,y2) = true;
+                }
+            }
+        }
+    }
+
+    // Count the number of nodes on each side of the match.
+    // Construct nodeID->pixel and pixel->nodeID maps.
+    // Node IDs range from [0,n1) and [0,n2).
+    int n1=0, n2=0;
+    std::vector<Pixel> nodeToPix1;
+    std::vector<Pixel> nodeToPix2;
+    Array2D<int> pixToNode1 (width,height);
+    Array2D<int> pixToNode2 (width,height);
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            pixToNode1(x,y) = -1;
+            pixToNode2(x,y) = -1;
+            Pixel pix (x,y);
+            if (matchable1(x,y)) {
+                pixToNode1(x,y) = n1;
+                nodeToPix1.push_back(pix);
+                n1++;
+            }
+            if (matchable2(x,y)) {
+                pixToNode2(x,y) = n2;
+                nodeToPix2.push_back(pix);
+                n2++;
+            }
+        }
+    }
+
+    // Construct the list of edges between pixels within maxDist.
+    std::vector<Edge> edges;
+    for (int x1 = 0; x1 < width; x1++) {
+        for (int y1 = 0; y1 < height; y1++) {
+            if (!matchable1(x1,y1)) { continue; }
+            for (int u = -r; u <= r; u++) {
+                for (int v = -r; v <= r; v++) {
+                    const double d2 = u*u + v*v;
+                    if (d2 > maxDist*maxDist) { continue; }
+                    const int x2 = x1 + u;
+                    const int y2 = y1 + v;
+                    if (x2 < 0 || x2 >= width) { continue; }
+                    if (y2 < 0 || y2 >= height) { continue; }
+                    if (!matchable2(x2,y2)) { continue; }
+                    Edge e; 
+                    e.i = pixToNode1(x1,y1);
+                    e.j = pixToNode2(x2,y2);
+                    e.w = sqrt(d2);
+                    assert (e.i >= 0 && e.i < n1);
+                    assert (e.j >= 0 && e.j < n2);
+                    assert (e.w < outlierCost);
+                    edges.push_back(e);
+                }
+            }
+        }
+    }
+
+    // The cardinality of the match is n.
+    const int n = n1 + n2;
+    const int nmin = std::min(n1,n2);
+    const int nmax = std::max(n1,n2);
+
+    // Compute the degree of various outlier connections.
+    const int d1 = std::max(0,std::min(degree,n1-1)); // from map1
+    const int d2 = std::max(0,std::min(degree,n2-1)); // from map2
+    const int d3 = std::min(degree,std::min(n1,n2)); // between outliers
+    const int dmax = std::max(d1,std::max(d2,d3));
+
+    assert (n1 == 0 || (d1 >= 0 && d1 < n1));
+    assert (n2 == 0 || (d2 >= 0 && d2 < n2));
+    assert (d3 >= 0 && d3 <= nmin);
+
+    // Count the number of edges.
+    int m = 0;
+    m += edges.size(); 	// real connections
+    m += d1 * n1;	// outlier connections
+    m += d2 * n2;	// outlier connections
+    m += d3 * nmax;	// outlier-outlier connections
+    m += n; 		// high-cost perfect match overlay
+
+    // If the graph is empty, then there's nothing to match:
+    // every pixel is an outlier.
+    if (m == 0) {
+        double cost = 0;
+        for (int x = 0; x < width; x++) {
+            for (int y = 0; y < height; y++) {
+                if (bmap1(y,x)) { cost += outlierCost; }
+                if (bmap2(y,x)) { cost += outlierCost; }
+            }
+        }
+        return cost;
+    }
+
+    // Weight of outlier connections.
+    const int ow = (int) ceil (outlierCost * multiplier);
+
+    // Scratch array for outlier edges.
+    Array1D<int> outliers (dmax);
+
+    // Construct the input graph for the assignment problem.
+    Array2D<int> igraph (m,3);
+    int count = 0;
+    // real edges
+    for (int a = 0; a < (int)edges.size(); a++) {
+        int i = edges[a].i;
+        int j = edges[a].j;
+        assert (i >= 0 && i < n1);
+        assert (j >= 0 && j < n2);
+        igraph(count,0) = i;
+        igraph(count,1) = j;
+        igraph(count,2) = (int) rint (edges[a].w * multiplier);
+        count++;
+    }
+    // outliers edges for map1, exclude diagonal
+    for (int i = 0; i < n1; i++) {
+        kOfN(d1,n1-1,outliers.data());
+        for (int a = 0; a < d1; a++) {
+            int j = outliers(a);
+            if (j >= i) { j++; }
+            assert (i != j);
+            assert (j >= 0 && j < n1);
+            igraph(count,0) = i;
+            igraph(count,1) = n2 + j;
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // outliers edges for map2, exclude diagonal
+    for (int j = 0; j < n2; j++) {
+        kOfN(d2,n2-1,outliers.data());
+        for (int a = 0; a < d2; a++) {
+            int i = outliers(a);
+            if (i >= j) { i++; }
+            assert (i != j);
+            assert (i >= 0 && i < n2);
+            igraph(count,0) = n1 + i;
+            igraph(count,1) = j;
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // outlier-to-outlier edges
+    for (int i = 0; i < nmax; i++) {
+        kOfN(d3,nmin,outliers.data());
+        for (int a = 0; a < d3; a++) {
+            const int j = outliers(a);
+            assert (j >= 0 && j < nmin);
+            if (n1 < n2) {
+                assert (i >= 0 && i < n2);
+                assert (j >= 0 && j < n1);
+                igraph(count,0) = n1 + i;
+                igraph(count,1) = n2 + j;
+            } else {
+                assert (i >= 0 && i < n1);
+                assert (j >= 0 && j < n2);
+                igraph(count,0) = n1 + j;
+                igraph(count,1) = n2 + i;
+            }
+            igraph(count,2) = ow;
+            count++;
+        }
+    }
+    // perfect match overlay (diagonal)
+    for (int i = 0; i < n1; i++) {
+        igraph(count,0) = i;
+        igraph(count,1) = n2 + i;
+        igraph(count,2) = ow * multiplier;
+        count++;
+    }
+    for (int i = 0; i < n2; i++) {
+        igraph(count,0) = n1 + i;
+        igraph(count,1) = i;
+        igraph(count,2) = ow * multiplier;
+        count++;
+    }
+    assert (count == m);
+
+    // Check all the edges, and set the values up for CSA.
+    for (int i = 0; i < m; i++) {
+        assert(igraph(i,0) >= 0 && igraph(i,0) < n);
+        assert(igraph(i,1) >= 0 && igraph(i,1) < n);
+        igraph(i,0) += 1;
+        igraph(i,1) += 1+n;
+    }
+
+    // Solve the assignment problem.
+    CSA csa(2*n,m,igraph.data());
+    assert(csa.edges()==n);
+
+    Array2D<int> ograph (n,3);
+    for (int i = 0; i < n; i++) {
+        int a,b,c;
+        csa.edge(i,a,b,c);
+        ograph(i,0)=a-1; ograph(i,1)=b-1-n; ograph(i,2)=c;
+    }
+
+    // Check the solution.
+    // Count the number of high-cost edges from the perfect match
+    // overlay that were used in the match.
+    int overlayCount = 0;
+    for (int a = 0; a < n; a++) {
+        const int i = ograph(a,0);
+        const int j = ograph(a,1);
+        const int c = ograph(a,2);
+        assert (i >= 0 && i < n);
+        assert (j >= 0 && j < n);
+        assert (c >= 0);
+        // edge from high-cost perfect match overlay
+        if (c == ow * multiplier) { overlayCount++; }
+        // skip outlier edges
+        if (i >= n1) { continue; }
+        if (j >= n2) { continue; }
+        // for edges between real nodes, check the edge weight
+        const Pixel pix1 = nodeToPix1[i];
+        const Pixel pix2 = nodeToPix2[j];
+        const int dx = pix1.x - pix2.x;
+        const int dy = pix1.y - pix2.y;
+        const int w = (int) rint (sqrt(dx*dx+dy*dy)*multiplier);
+        assert (w == c);
+    }
+
+    // Print a warning if any of the edges from the perfect match overlay
+    // were used.  This should happen rarely.  If it happens frequently,
+    // then the outlier connectivity should be increased.
+    if (overlayCount > 5) {
+        fprintf (stderr, "%s:%d: WARNING: The match includes %d "
+                 "outlier(s) from the perfect match overlay.\n",
+                 __FILE__, __LINE__, overlayCount);
+    }
+
+    // Compute match arrays.
+    for (int a = 0; a < n; a++) {
+        // node ids
+        const int i = ograph(a,0);
+        const int j = ograph(a,1);
+        // skip outlier edges
+        if (i >= n1) { continue; }
+        if (j >= n2) { continue; }
+        // map node ids to pixels
+        const Pixel pix1 = nodeToPix1[i];
+        const Pixel pix2 = nodeToPix2[j];
+        // record edges
+        match1(pix1.x,pix1.y) = pix2;
+        match2(pix2.x,pix2.y) = pix1;
+    }
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            if (bmap1(y,x)) {
+                if (match1(x,y) != Pixel(-1,-1)) {
+                    m1(y,x) = match1(x,y).x*height + match1(x,y).y + 1;
+                }
+            }
+            if (bmap2(y,x)) {
+                if (match2(x,y) != Pixel(-1,-1)) {
+                    m2(y,x) = match2(x,y).x*height + match2(x,y).y + 1;
+                }
+            }
+        }
+    }
+
+    // Compute the match cost.
+    double cost = 0;
+    for (int x = 0; x < width; x++) {
+        for (int y = 0; y < height; y++) {
+            if (bmap1(y,x)) {
+                if (match1(x,y) == Pixel(-1,-1)) {
+                    cost += outlierCost;
+                } else {
+                    const int dx = x - match1(x,y).x;
+                    const int dy = y - match1(x,y).y;
+                    cost += 0.5 * sqrt (dx*dx + dy*dy);
+                }
+            }
+            if (bmap2(y,x)) {
+                if (match2(x,y) == Pixel(-1,-1)) {
+                    cost += outlierCost;
+                } else {
+                    const int dx = x - match2(x,y).x;
+                    const int dy = y - match2(x,y).y;
+                    cost += 0.5 * sqrt (dx*dx + dy*dy);
+                }
+            }
+        }
+    }    
+
+    // Return the match cost.
+    return cost;
+}
-- 
2.43.0


From cfba216b51107ad8dac23c994962061c7c9e68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 27/35] fix: the diagonal of images longer than 46340 pixels
 does not overflow int

---
 pyEdgeEval/_lib/correspond_pixels.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/_lib/correspond_pixels.pyx b/pyEdgeEval/_lib/correspond_pixels.pyx
index c2b2f28..8249555 100644
--- a/pyEdgeEval/_lib/correspond_pixels.pyx
+++ b/pyEdgeEval/_lib/correspond_pixels.pyx
@@ -19,7 +19,7 @@ cdef _correspond_pixels(double[::1,:] img0, double[::1,:] img1, double max_dist,
                         double[::1,:] out0, double[::1,:] out1):
     cdef int rows = img0.shape[0]
     cdef int cols = img0.shape[1]
-    cdef double idiag = math.sqrt(rows * rows + cols * cols)
+    cdef double idiag = math.sqrt(<double>rows * rows + <double>cols * cols)
     cdef double oc = outlier_cost * max_dist * idiag
 
     # Copy data to Matrix types; construct matrices, get views of their contents and copy
-- 
2.43.0


From 6f5a8e9f239fc4735eac620a7ccf231d77c6cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 28/35] fix: track_parallel_progress leaves no workers behind
 when a task fails

---
 pyEdgeEval/utils/progressbar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyEdgeEval/utils/progressbar.py b/pyEdgeEval/utils/progressbar.py
index b237ecb..e68a2e1 100644
--- a/pyEdgeEval/utils/progressbar.py
+++ b/pyEdgeEval/utils/progressbar.py
@@ -126,6 +126,16 @@ def init_pool(process_num, initializer=None, initargs=None):
         return Pool(process_num, initializer, initargs)
 
 
+def _iter_results(pool, results):
+    """Yield the results, but don't leave workers behind when a task fails"""
+    try:
+        yield from results
+    except BaseException:
+        pool.terminate()
+        pool.join()
+        raise
+
+
 def track_parallel_progress(
     func,
     tasks,
@@ -186,6 +196,7 @@ def track_parallel_progress(
         gen = pool.imap(func, tasks, chunksize)
     else:
         gen = pool.imap_unordered(func, tasks, chunksize)
+    gen = _iter_results(pool, gen)
     for result in gen:
         results.append(result)
         if skip_first:
-- 
2.43.0


From 905716da5bddcc0d833a4f30ed23b67152562c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 29/35] fix: nms_results names its outputs after the whole file
 name and skips existing ones

---
 pyEdgeEval/preprocess/nms/fast_nms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/preprocess/nms/fast_nms.py b/pyEdgeEval/preprocess/nms/fast_nms.py
index 5ed4dee..99464aa 100644
--- a/pyEdgeEval/preprocess/nms/fast_nms.py
+++ b/pyEdgeEval/preprocess/nms/fast_nms.py
@@ -113,9 +113,10 @@ def nms_results(result_dir, save_dir, loader):
         os.makedirs(save_dir)
 
     for file in os.listdir(result_dir):
-        save_name = os.path.join(save_dir, f"{os.path.splitext(file[0])}.png")
+        save_name = os.path.join(save_dir, f"{os.path.splitext(file)[0]}.png")
         if os.path.isfile(save_name):
             print(f"file: {save_name} exists... skipping")
+            continue
         img_path = os.path.join(result_dir, file)
         # load image
         img = loader(img_path)
-- 
2.43.0


From 884241133a78004ed5c14b8f93906f4631691eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 30/35] fix: huge outlier costs no longer overflow the integer
 edge weights of the matching

---
 pyEdgeEval/_lib/src/match.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/_lib/src/match.cc b/pyEdgeEval/_lib/src/match.cc
index 6b26406..e62285b 100644
--- a/pyEdgeEval/_lib/src/match.cc
+++ b/pyEdgeEval/_lib/src/match.cc
@@ -1,5 +1,6 @@
 
 #include <stdlib.h>
+#include <limits.h>
 #include <math.h>
 #include <vector>
 #include <algorithm>
@@ -174,8 +175,10 @@ matchEdgeMaps (
         return cost;
     }
 
-    // Weight of outlier connections.
-    const int ow = (int) ceil (outlierCost * multiplier);
+    // Weight of outlier connections; the overlay's weight (ow * multiplier)
+    // has to fit an int.
+    const int ow = (int) std::min (ceil (outlierCost * multiplier),
+                                   (double) (INT_MAX / multiplier));
 
     // Scratch array for outlier edges.
     Array1D<int> outliers (dmax);
-- 
2.43.0


From 2def1cb8835c0bd1b1a8b81d0b51ef595b3b5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 31/35] fix: the list of re-annotated samples may name a single
 sample

---
 pyEdgeEval/helpers/convert_sbd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_sbd.py b/pyEdgeEval/helpers/convert_sbd.py
index 22c440d..ba5ee65 100644
--- a/pyEdgeEval/helpers/convert_sbd.py
+++ b/pyEdgeEval/helpers/convert_sbd.py
@@ -377,13 +377,16 @@ def load_reanno_samples(path: str, new_loader: bool = False):
     if new_loader:
         print("not implemented yet")
         test = loadmat(path, True)["listTest"]
+        if isinstance(test, str):
+            # single sample
+            test = [test]
         assert isinstance(
             test, (list, tuple)
         ), f".mat should contain lists but got {type(test)}"
     else:
         test = loadmat(path, False)["listTest"]
         # HACK: nested structured array of string
-        test = [t.tolist()[0] for t in test.squeeze()]
+        test = [t.tolist()[0] for t in test.ravel()]
 
     return test
 
-- 
2.43.0


From d2b5f05ced3fcbf9d1c6a55db619636ecc435dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 32/35] fix: compare Cityscapes edges with their reference
 whatever the root is called

Replace only the reference directory itself, not an earlier part of the path.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 73ce560..41f3e31 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -214,7 +214,7 @@ def test_edges(
 ) -> None:
     edge_dir = osp.dirname(edge_file)
     edge_fn = osp.basename(edge_file)
-    test_dir = edge_dir.replace(orig_dir, test_dir)
+    test_dir = test_dir.join(edge_dir.rsplit(orig_dir, 1))
     test_file = osp.join(test_dir, edge_fn)
     test_file = test_file.replace(orig_suffix, test_suffix)
     _, ext = osp.splitext(edge_file)
-- 
2.43.0


From 4bced7743465697edb314941fce060f76d11f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 33/35] fix: compare Cityscapes edges with reference edges of
 the chosen format

With --ext tif the comparison looked for validation edges in png files.
---
 pyEdgeEval/helpers/convert_cityscapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/helpers/convert_cityscapes.py b/pyEdgeEval/helpers/convert_cityscapes.py
index 41f3e31..fd011a1 100644
--- a/pyEdgeEval/helpers/convert_cityscapes.py
+++ b/pyEdgeEval/helpers/convert_cityscapes.py
@@ -411,8 +411,8 @@ def test_against_matlab(
     )
 
     test_name = proc_dirname
-    orig_edge_suffix = "_gtProc_edge.png"
-    val_edge_suffix = "_gtProc_raw_edge.png"
+    orig_edge_suffix = f"_gtProc_edge.{ext}"
+    val_edge_suffix = f"_gtProc_raw_edge.{ext}"
     train_edge_suffix = f"_gtProc_edge.{ext}"  # NOTE: nonIS
 
     orig_dir = osp.join(cityscapes_root, matlab_proc_dirname)
@@ -429,6 +429,7 @@ def test_against_matlab(
         test_edges,
         orig_dir=matlab_proc_dirname,
         test_dir=test_name,
+        orig_suffix=orig_edge_suffix,
         test_suffix=train_edge_suffix,
     )
     if nproc > 1:
@@ -458,6 +459,7 @@ def test_against_matlab(
         test_edges,
         orig_dir=matlab_proc_dirname,
         test_dir=test_name,
+        orig_suffix=orig_edge_suffix,
         test_suffix=val_edge_suffix,
     )
     if nproc > 1:
-- 
2.43.0


From 38d66d0728011699814168d758743fbe4bc62781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:13 +0000
Subject: [PATCH 34/35] fix: conv_tri with a step keeps the samples convTri.m
 keeps

MATLAB's t:s:end-s+t ends at end-s+t; one sample more was kept for some sizes.
---
 pyEdgeEval/preprocess/nms/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyEdgeEval/preprocess/nms/toolbox.py b/pyEdgeEval/preprocess/nms/toolbox.py
index 9ff84b5..1683c09 100644
--- a/pyEdgeEval/preprocess/nms/toolbox.py
+++ b/pyEdgeEval/preprocess/nms/toolbox.py
@@ -36,8 +36,8 @@ def conv_tri(
     if s > 1:
         t = int(np.floor(s / 2) + 1)
         image = image[
-            t - 1 : image.shape[0] - (s - t) + 1 : s,
-            t - 1 : image.shape[1] - (s - t) + 1 : s,
+            t - 1 : image.shape[0] - (s - t) : s,
+            t - 1 : image.shape[1] - (s - t) : s,
         ]
     return image
 
-- 
2.43.0


From 3ff6143ed2ae88ac0bf03b57375688b4b1e0048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:25 +0000
Subject: [PATCH 35/35] fix: only children of an initialized logger skip their
 initialization

---
 pyEdgeEval/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyEdgeEval/utils/logger.py b/pyEdgeEval/utils/logger.py
index 8632123..f8090b1 100644
--- a/pyEdgeEval/utils/logger.py
+++ b/pyEdgeEval/utils/logger.py
@@ -41,7 +41,7 @@ def get_logger(name, log_file=None, log_level=logging.INFO, file_mode="w"):
     # e.g., logger "a" is initialized, then logger "a.b" will skip the
     # initialization since it is a child of "a".
     for logger_name in logger_initialized:
-        if name.startswith(logger_name):
+        if name.startswith(logger_name + "."):
             return logger
 
     stream_handler = logging.StreamHandler()
-- 
2.43.0

