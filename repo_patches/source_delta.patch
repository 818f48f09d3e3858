From 49a0327320213c2c4ec4a5634970ef6f5e790f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 01/53] fix: match triplets only against the candidates that
 were found

---
 openptv_python/correspondences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..e56e9f1 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -204,7 +204,9 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            # only the first n entries hold candidates
+                            n23 = corr_list[i2][i3][p2].n
+                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2[:n23])
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From b4693c1082ed2b7cfa3bfcc6c6c1eace173f9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 02/53] fix: three_camera_matching crashed for three-camera
 setups

---
 openptv_python/correspondences.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index e56e9f1..5751a16 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -230,13 +230,16 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
-                            p[i1], p[i2], p[i3] = p1, p2, p3
-                            scratch[matched].p = p
+                            for n in range(num_cams):
+                                scratch[matched].p[n] = -2
+
+                            scratch[matched].p[i1] = p1
+                            scratch[matched].p[i2] = p2
+                            scratch[matched].p[i3] = p3
                             scratch[matched].corr = corr
 
                             matched += 1
-                            # print(f"matched: {matched} p: {p}")
+                            # print(f"matched: {matched}")
 
                             if matched == scratch_size:
                                 print("Overflow in correspondences.\n")
-- 
2.43.0


From dec01f0409fb62ccdf8c061201f84ee9bd5c0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 03/53] fix: correspondences made up cliques from unfilled
 candidate rows

---
 openptv_python/correspondences.py | 38 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 5751a16..6f4c8c6 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -658,31 +658,51 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
-            corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
+        matched = four_camera_matching(
+            corr_list, frm.num_targets[0], vpar.corrmin, con0, len(con0)
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:matched].view(np.recarray), con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+        matched = three_camera_matching(
+            corr_list,
+            cpar.num_cams,
+            frm.num_targets,
+            vpar.corrmin,
+            con0,
+            len(con0),
+            tim,
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+        matched = consistent_pair_matching(
+            corr_list,
+            cpar.num_cams,
+            frm.num_targets,
+            vpar.corrmin,
+            con0,
+            len(con0),
+            tim,
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 3a6656e64c749b574c7ac2764dd8a35d8e8274d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 04/53] fix: py_correspondences crashed for two and three
 cameras

---
 openptv_python/correspondences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 6f4c8c6..6dbbafb 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -532,7 +532,8 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    # one counter per clique size (quadruplets, triplets, pairs) and the total
+    match_counts = [0] * 4
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -585,7 +586,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
@@ -618,7 +619,7 @@ def correspondences(
             parameters.
 
         Output Arguments:
-        int match_counts[] - output buffer, as long as the number of cameras.
+        int match_counts[] - output buffer of 4 elements,
             stores the number of matches for each clique size, in descending
             clique size order. The last element stores the total.
 
-- 
2.43.0


From 6a5d325795530e1cadbe3a2b8ca762ad6a073ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 05/53] fix: sort_candidates_by_freq lost candidates when
 swapping records

---
 openptv_python/track.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..426fa3e 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -508,7 +508,8 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # records are views, so swap through a copy
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -521,7 +522,8 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                # records are views, so swap through a copy
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From 2021247d3fa14bec78f0bca7d14b43bbf14efcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 06/53] fix: unfilled search slots registered the last target
 as a candidate

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 426fa3e..5bab0bf 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From c2f18f4c18c60bc3a0799e93af9df73377752436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 07/53] fix: trackback_c wrote the first frame over the second
 one

---
 openptv_python/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 5bab0bf..2d33084 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1326,8 +1326,9 @@ def trackback_c(run_info: TrackingRun):
         f"Average over sequence, particles: {npart:.1f}, links: {nlinks:.1f}, lost: {npart - nlinks:.1f}"
     )
 
+    # the loop above ends one step short of the first frame
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From b4676b4e4f983b9e09d234ce8c3e8b26ef5a43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 08/53] fix: angle_acc crashed or gave NaN for still particles
 and straight paths

---
 openptv_python/track.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 2d33084..233fb7e 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -261,9 +261,15 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        norm_product = norm_start_pred * norm_start_cand
+
+        if norm_product == 0:
+            # no direction can be assigned to a zero velocity
+            angle = 0
+        else:
+            # rounding may push the cosine of parallel vectors out of [-1, 1]
+            cosine = min(1.0, max(-1.0, dot_product / norm_product))
+            angle = (200.0 / np.pi) * np.arccos(cosine)
 
     return np.array([angle, acc])
 
-- 
2.43.0


From 771376042e633d1f24f53b79d96db84bfb530e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 09/53] fix: add_particle overwrote the correspondences of
 other particles

---
 openptv_python/track.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 233fb7e..a11a1d4 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -739,17 +739,16 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
     else:
         ref_path_inf = Pathinfo()
         frm.path_info.append(ref_path_inf)
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
 
+    ref_corres = frm.correspond[num_parts]
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
 
-- 
2.43.0


From 37c671f3992ff416f59bc8627b7829b49d713374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 10/53] fix: add_particle took the last target of cameras that
 have none

---
 openptv_python/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index a11a1d4..b09ffff 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -758,7 +757,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 806c154a20a65eaedf8c5cb64afff05b47c1eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 11/53] fix: write_targets crashed for an empty target list

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..1981bad 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -230,7 +230,7 @@ def write_targets(
         # Convert targets to a 2D numpy array
         target_arr = np.array(
             [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 24a5f1561e7e00fd3ac5a9b8229d27dfe697779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 12/53] fix: write_path_frame crashed when no priority file was
 asked for

---
 openptv_python/tracking_frame_buf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 1981bad..ac0fe58 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -846,8 +846,8 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
-            prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
+        if prio_fname is not None:
+            prio_file = open(prio_fname, "w", encoding="utf8")
             prio_file.write(f"{num_parts}\n")
 
         for pix in range(num_parts):
@@ -864,7 +864,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -873,7 +873,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 344b3d8ed20a97e5ad2fde866c86bf50f1d6f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 13/53] fix: sortgrid renumbered one shared target for several
 grid points

---
 openptv_python/sortgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..44559ea 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+from dataclasses import replace
 from pathlib import Path
 from typing import List
 
@@ -62,8 +63,8 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
-                sorted_pix[i].pnr = i
+                # a copy: one dot may be the nearest to several grid points
+                sorted_pix[i] = replace(pix[j], pnr=i)
 
     return sorted_pix
 
-- 
2.43.0


From 8c21e740cb9a5b1505948b5b94e675179acf3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 14/53] fix: multi_cam_point_positions returned only the last
 point's position

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From b1becae0937041f0495ea77977572a2dd4f4579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 15/53] fix: point_position crashed on a point seen by fewer
 than two cameras

---
 openptv_python/orientation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..edc6326 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -105,6 +105,10 @@ def point_position(
             dtot += tmp
             point_tot += point
 
+    if num_used_pairs == 0:
+        # fewer than two cameras see the point, its position is not defined
+        return float("nan"), np.full(3, np.nan)
+
     res = point_tot / num_used_pairs
     dtot /= num_used_pairs
 
-- 
2.43.0


From 4ad3eb56f261e502bf0c4e59c7ef86565d48ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 16/53] fix: a failed orientation left the calibration half
 updated

---
 openptv_python/orientation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index edc6326..dad2834 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1,5 +1,6 @@
 """Functions for the orientation of the camera."""
 
+import copy
 from typing import List, Optional, Tuple
 
 import numpy as np
@@ -262,6 +263,10 @@ def orient(
         distortion parameters, which are also part of the G-M model and
         described in it. On failure returns None.
     """
+    # the caller's calibration is only updated if the iterations converge
+    cal_in = cal
+    cal = copy.deepcopy(cal_in)
+
     maxsize = nfix * 2 + IDT
 
     # dm: float = 0.000001
@@ -611,6 +616,10 @@ def orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal_in.ext_par = cal.ext_par
+        cal_in.int_par = cal.int_par
+        cal_in.glass_par = cal.glass_par
+        cal_in.added_par = cal.added_par
         return resi
     else:
         return None
-- 
2.43.0


From 2e5d0dbf6ed89b24903f8751e7acd984fee0bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 17/53] fix: full_calibration gave residuals of other points
 for the skipped ones

---
 openptv_python/orientation.py | 41 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index dad2834..28263f6 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -198,6 +198,21 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def is_used_in_orientation(ix: int, target: Target, flags: OrientPar) -> bool:
+    """Tell if reference point number ix takes part in the orientation."""
+    if target.pnr != ix:
+        return False
+
+    if flags.useflag == 1 and ix % 2 == 0:
+        return False
+    elif flags.useflag == 2 and ix % 2 != 0:
+        return False
+    elif flags.useflag == 3 and ix % 3 == 0:
+        return False
+
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -337,14 +352,7 @@ def orient(
         itnum += 1
         n = 0
         for i in range(nfix):
-            if pix[i].pnr != i:  # we need to check this point here
-                continue
-
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not is_used_in_orientation(i, pix[i], flags):
                 continue
 
             # get metric flat-image coordinates of the detected point
@@ -899,12 +907,19 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # residuals come in the order of the points that were used
+    used = np.array(
+        [
+            ix
+            for ix in range(len(ref_pts))
+            if is_used_in_orientation(ix, targs[ix], orient_par)
+        ],
+        dtype=np.int_,
+    )
+    ret = np.empty((len(used), 2))
 
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    for n in range(len(used)):
+        ret[n] = (residuals[2 * n], residuals[2 * n + 1])
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 5e9f4f2be59ccec7833f2b454aac69e7008b3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 18/53] fix: control parameters read from YAML or a dictionary
 lost the media

---
 openptv_python/parameters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..4e3b865 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -458,9 +458,15 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
+        data = dict(data, mm=MultimediaPar.from_dict(mm_data))
         return cls(**data)
 
+    @classmethod
+    def from_yaml(cls, file_path: Path):
+        """Read ControlPar from YAML file."""
+        with open(file_path, "r", encoding="utf-8") as file:
+            return cls.from_dict(yaml.safe_load(file))
+
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
         self.imx = imsize[0]
-- 
2.43.0


From 51602652900d271f4bf3365bb43c4223dbd67bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 19/53] fix: compare_mm_np ignored all layers but the first

---
 openptv_python/parameters.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 4e3b865..4225bfd 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,18 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (
+        mm_np1.nlay,
+        mm_np1.n1,
+        mm_np1.n3,
+        list(mm_np1.n2),
+        list(mm_np1.d),
+    ) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From a57bec29e94308b13b8f63cb9b96f6427a1fe5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 20/53] fix: missing tracking parameter file raised a TypeError

---
 openptv_python/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 4225bfd..43c36c3 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -237,7 +237,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From 7b993b36bc864e3c8a799fae8cd0b429ea7659d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 21/53] fix: PftVersionPar.write wrote a file that cannot be
 read back

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 43c36c3..1951f12 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -880,8 +880,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From f2f2e4230c0b54deec3063e05449f3fba46bf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 22/53] fix: read_ori returned a default calibration

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..3455076 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From 1264b0ed9907a682a2becda0832fe24f73742228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 23/53] fix: write_ori reported failure when no added
 parameters were asked for

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 3455076..46bacc4 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -416,7 +416,7 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
-- 
2.43.0


From c9162a8365b1736c69a8dffc91df5c031df85b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 24/53] fix: set_rotation_matrix crashed

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 46bacc4..7ddb9ab 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 9d836b0b3553f660be92e2672168d045cf82b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 25/53] fix: compare_calibration ignored the distortion
 parameters

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 7ddb9ab..7e487b0 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 479485b3b8ec233be6cd99c597c514af9d3c7d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 26/53] fix: move_along_ray changed the caller's ray direction

---
 openptv_python/multimed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..313eae8 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -231,11 +231,12 @@ def move_along_ray(glob_z: float, vertex: np.ndarray, direct: np.ndarray) -> np.
 
     """
     out = np.zeros(3, dtype=np.float64)
-    if direct[2] == 0:
-        direct[2] = 1  # avoid division by zero
+    dz = direct[2]
+    if dz == 0:
+        dz = 1.0  # avoid division by zero
 
-    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / direct[2]
-    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / direct[2]
+    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / dz
+    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / dz
     out[2] = glob_z
 
     return out
-- 
2.43.0


From 815205a406bb8acd90ecd310efc8092ead2b6895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 27/53] fix: lookups beyond the multimedia table crashed or
 read other cells

---
 openptv_python/multimed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 313eae8..2710f25 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -354,7 +354,7 @@ def fast_get_mmf_from_mmlut(
     """Get the refractive index of the medium at a given position."""
     temp = pos - origin
     sz = temp[2] / rw
-    iz = int(sz)
+    iz = int(np.floor(sz))
     sz -= iz
 
     R = float(np.linalg.norm(np.array([temp[0], temp[1], 0])))
@@ -362,9 +362,9 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    if ir + 1 >= nr:
         return 0.0
-    if iz < 0 or iz > nz:
+    if iz < 0 or iz + 1 >= nz:
         return 0.0
 
     # bilinear interpolation in r/z box
@@ -379,7 +379,7 @@ def fast_get_mmf_from_mmlut(
     # 2. check wther point is inside camera's object volume
     # important for epipolar line computation
     for i in range(4):
-        if v4[i] < 0 or v4[i] > nr * nz:
+        if v4[i] < 0 or v4[i] >= nr * nz:
             return 0.0
 
     # interpolate
-- 
2.43.0


From 62c41caa09886183488b31267e499590815a7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 28/53] fix: volumedimension intersected the near plane with
 the wrong sign

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 2710f25..7d0ba08 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -428,9 +428,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From ad4227bc6c9a59623c6c6559a8bc40d316460b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 29/53] fix: candidate search skipped the first of 8191 targets

---
 openptv_python/find_candidate.py | 3 ++-
 openptv_python/track.py          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..8ecaa7f 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -200,7 +200,8 @@ def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) ->
     # print(f"j0 before: {j0}")
 
     # Due to truncation error we might shift to smaller x.
-    start_point = j0 - 12  # why in C it's -12 ? -12 is a magic number
+    # 14 is enough for any number of targets up to MAX_TARGETS
+    start_point = j0 - 14
     if start_point < 0:
         start_point = 0
 
diff --git a/openptv_python/track.py b/openptv_python/track.py
index b09ffff..dd0aba8 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -312,7 +312,7 @@ def candsearch_in_pix(
                 j0 -= dj
             dj //= 2
 
-        j0 -= 12
+        j0 -= 14  # enough for any number of targets up to MAX_TARGETS
         if j0 < 0:
             j0 = 0
 
@@ -401,7 +401,7 @@ def candsearch_in_pix_rest(
             j0 += dj if next_frame[j0].y < ymin else -dj
             dj //= 2
 
-        j0 -= 12 if j0 >= 12 else j0  # due to trunc
+        j0 -= 14 if j0 >= 14 else j0  # due to trunc
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From f7d69f27da027d489c5b0e0b55845098072e1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 30/53] fix: candsearch_in_pix dropped targets at equal
 distances

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index dd0aba8..153e7f3 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -332,13 +332,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From c581ef49d10b749933ad7d243ab36b255e53c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 31/53] fix: add_particle kept another particle's targets in
 the spare cameras

---
 openptv_python/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 153e7f3..55e68a5 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -753,9 +753,8 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
 
     ref_targets = frm.targets
 
+    ref_corres.p[:] = CORRES_NONE
     for cam in range(frm.num_cams):
-        ref_corres.p[cam] = CORRES_NONE
-
         # We always take the 1st candidate, apparently. Why did we fetch 4?
         if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
-- 
2.43.0


From 78033d161cbfe94825cf3afbe4ab7b9e902a0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 32/53] fix: last tracking step looked ahead into a stale
 earlier frame

---
 openptv_python/track.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 55e68a5..ee59f76 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -808,6 +808,8 @@ def trackcorr_c_loop(run_info, step):
     vpar = run_info.vpar
     cpar = run_info.cpar
     curr_targets = fb.buf[1].targets
+    # the last step has no frame to look ahead to
+    ahead = fb.buf[3] if step < run_info.seq_par.last - 1 else Frame(fb.num_cams, 0)
 
     v1 = np.zeros((cpar.num_cams, 2))  # volume center projection on cameras
     v2 = np.zeros((cpar.num_cams, 2))  # volume center projection on cameras
@@ -877,15 +879,15 @@ def trackcorr_c_loop(run_info, step):
                 #  print(f"v1[{j}], {v1[j]}")
 
             # end of search in pix
-            wn = sorted_candidates_in_volume(X[5], v1, fb.buf[3], run_info)
+            wn = sorted_candidates_in_volume(X[5], v1, ahead, run_info)
             if wn.shape[0] > 1:  # not empty means two rows at least.
                 count3 += 1
                 kk = 0
                 while (
-                    wn[kk].ftnr != TR_UNUSED and len(fb.buf[3].path_info) > wn[kk].ftnr
+                    wn[kk].ftnr != TR_UNUSED and len(ahead.path_info) > wn[kk].ftnr
                 ):
                     # print(f" inside wn[{kk}].ftnr {wn[kk].ftnr}")
-                    ref_path_inf = fb.buf[3].path_info[wn[kk].ftnr]
+                    ref_path_inf = ahead.path_info[wn[kk].ftnr]
                     X[4] = vec_copy(ref_path_inf.x)
                     #  print(f"X[4] {X[4]}")
 
@@ -929,7 +931,7 @@ def trackcorr_c_loop(run_info, step):
             # fix distance of 3 pixels to define xl,xr,yu,yd instead of searchquader
             # and search for unused candidates in next_frame time step
 
-            quali, v2, philf = assess_new_position(X[5], fb.buf[3], run_info)
+            quali, v2, philf = assess_new_position(X[5], ahead, run_info)
             # print(f"quali {quali}, v2 {v2}, philf {philf}")
 
             # quali >=2 means at least in two cameras
@@ -969,7 +971,7 @@ def trackcorr_c_loop(run_info, step):
                         curr_path_inf.register_link_candidate(rr, w[mm].ftnr)
 
                         if tpar.add:
-                            add_particle(fb.buf[3], X[4], philf)
+                            add_particle(ahead, X[4], philf)
                             num_added += 1
 
                 in_volume = 0
-- 
2.43.0


From 8111dcb6dd6e8fa5e306e0af53fe4a0fcd5f5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 33/53] fix: a particle at rest does not turn by 200 gon

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index ee59f76..76713c7 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -251,10 +251,10 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
 
     acc = np.linalg.norm(v0 - v1)
 
-    if np.all(v0 == -v1):
-        angle = 200
-    elif np.all(v0 == v1):
+    if np.all(v0 == v1):
         angle = 0
+    elif np.all(v0 == -v1):
+        angle = 200
     else:
         dot_product = np.sum(v0 * v1)
         norm_start_pred = np.linalg.norm(start - pred)
-- 
2.43.0


From 3c5df78fd5b64d3b8edbc5791d065bc07e795071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 34/53] fix: start tracking of a two frame sequence without
 reading beyond its end

---
 openptv_python/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 76713c7..325c4ed 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -777,7 +777,9 @@ def track_forward_start(tr: TrackingRun):
 
     # Prime the buffer with first three frames, fourth frame is read when we track
     for step in range(tr.seq_par.first, tr.seq_par.first + TR_BUFSPACE - 1):
-        tr.fb.read_frame_at_end(step)
+        # a sequence of two frames has no third one
+        if step <= tr.seq_par.last:
+            tr.fb.read_frame_at_end(step)
         tr.fb.fb_next()
 
     tr.fb.fb_prev()
-- 
2.43.0


From f153855d711ecb6d337ef53017c727eae30aa4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 35/53] fix: track backwards over sequences of fewer than four
 frames

---
 openptv_python/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 325c4ed..bb8f7a4 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1138,7 +1138,9 @@ def trackback_c(run_info: TrackingRun):
 
     # Prime the buffer with first frames
     for step in range(seq_par.last, seq_par.last - 4, -1):
-        fb.read_frame_at_end(step, read_links=True)
+        # a short sequence has fewer than four frames
+        if step >= seq_par.first:
+            fb.read_frame_at_end(step, read_links=True)
         fb.fb_next()
 
     fb.fb_prev()
@@ -1326,8 +1328,9 @@ def trackback_c(run_info: TrackingRun):
             )
         )
 
-    npart /= seq_par.last - seq_par.first - 1
-    nlinks /= seq_par.last - seq_par.first - 1
+    num_steps = max(1, seq_par.last - seq_par.first - 1)
+    npart /= num_steps
+    nlinks /= num_steps
 
     print(
         f"Average over sequence, particles: {npart:.1f}, links: {nlinks:.1f}, lost: {npart - nlinks:.1f}"
-- 
2.43.0


From 9a958a1ca000a1e63846aea3018afb7d2c73a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 36/53] fix: incomplete particle, linkage and prio files were
 read as sound ones

---
 openptv_python/tracking_frame_buf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index ac0fe58..6982dc5 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -770,6 +770,8 @@ def read_path_frame(
         if linkagein is not None:
             linkage_line = linkagein.readline()
             linkage_vals = np.fromstring(linkage_line, dtype=float, sep=" ")
+            if len(linkage_vals) != 5:
+                raise ValueError(f"Bad linkage line of frame {frame_num}: {linkage_line}")
             path_buf[targets].prev_frame = linkage_vals[0].astype(int)
             path_buf[targets].next_frame = linkage_vals[1].astype(int)
             # path_buf[targets].x = linkage_vals[2:]
@@ -777,6 +779,8 @@ def read_path_frame(
         if prioin is not None:
             prio_line = prioin.readline()
             prio_vals = np.fromstring(prio_line, dtype=float, sep=" ")
+            if len(prio_vals) != 6:
+                raise ValueError(f"Bad prio line of frame {frame_num}: {prio_line}")
             path_buf[targets].prio = prio_vals[-1].astype(int)
         else:
             path_buf[targets].prio = 4
@@ -787,6 +791,8 @@ def read_path_frame(
         path_buf[targets].linkdecis = [-999] * POSI
 
         vals = np.fromstring(line, dtype=float, sep=" ")
+        if len(vals) != 8:
+            raise ValueError(f"Bad particle line of frame {frame_num}: {line}")
         cor_buf[targets].nr = targets + 1
         cor_buf[targets].p = vals[-4:].astype(int)
         path_buf[targets].x = vals[1:-4]
@@ -801,6 +807,11 @@ def read_path_frame(
     if prioin is not None:
         prioin.close()
 
+    if targets != n_particles:
+        raise ValueError(
+            f"Found {targets} of {n_particles} particles of frame {frame_num}"
+        )
+
     return cor_buf, path_buf
 
 
-- 
2.43.0


From a13137dc37c8f239bcb5437139b50f4c91a028ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 37/53] fix: an orientation file with an incomplete glass
 vector was read as a sound one

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 7e487b0..0f6180c 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -159,7 +159,7 @@ class Calibration:
         # no need. set_angles updates rotation matrix automatically
         # ret.set_rotation_matrix(data[6:15].reshape(3, 3))
         ret.set_primary_point(data[15:18])  # xh, yh, cc
-        ret.glass_par = data[18:]  # glass position vector from the water side
+        ret.set_glass_vec(data[18:])  # glass position vector from the water side
 
         # double-check that we have the correct rotation matrix
         # self.ext_par.rotation_matrix()
-- 
2.43.0


From f022457cc7d960b8b841a5bb4d984be647771882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 38/53] fix: a truncated multiplanes file gave planes without a
 name

---
 openptv_python/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 1951f12..851ff5c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -839,7 +839,10 @@ class MultiPlanesPar(Parameters):
         """Read from multiplanes.par file."""
         with open(file_path, "r", encoding="utf-8") as file:
             num_planes = int(file.readline().strip())
-            filename = [file.readline().strip() for _ in range(num_planes)]
+            lines = [file.readline() for _ in range(num_planes)]
+        if "" in lines:
+            raise ValueError(f"{file_path} does not name {num_planes} planes")
+        filename = [line.strip() for line in lines]
         return cls(num_planes, filename)
 
 
-- 
2.43.0


From 167f9a007eba4ba81092147330c5cf1f8fee4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 39/53] fix: parameters made from a dictionary shared its lists

---
 openptv_python/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 851ff5c..a2d5fa1 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -1,6 +1,7 @@
 """Parameters for OpenPTV-Python."""
 
 from collections import namedtuple
+from copy import deepcopy
 from dataclasses import asdict, dataclass, field
 from pathlib import Path
 from typing import List, Tuple
@@ -36,7 +37,8 @@ class Parameters:
     @classmethod
     def from_dict(cls, data):
         """Read MultimediaPar from a dictionary."""
-        return cls(**data)
+        # the object gets lists of its own
+        return cls(**deepcopy(data))
 
     @classmethod
     def to_dict(cls, data):
@@ -466,7 +468,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data = dict(data, mm=MultimediaPar.from_dict(mm_data))
+        data = dict(deepcopy(data), mm=MultimediaPar.from_dict(mm_data))
         return cls(**data)
 
     @classmethod
-- 
2.43.0


From d516be1a931e80f304526762ede50e7c1bd24618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 40/53] fix: parameters with numpy numbers or tuples could not
 be read back from YAML

---
 openptv_python/parameters.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a2d5fa1..d5f6623 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -6,6 +6,7 @@ from dataclasses import asdict, dataclass, field
 from pathlib import Path
 from typing import List, Tuple
 
+import numpy as np
 import yaml
 
 from openptv_python.constants import TR_MAX_CAMS
@@ -30,6 +31,19 @@ TrackParTuple = namedtuple(
 )
 
 
+def _plain(value):
+    """Return a value with numpy numbers, arrays and tuples replaced by plain ones."""
+    if isinstance(value, dict):
+        return {key: _plain(val) for key, val in value.items()}
+    if isinstance(value, np.ndarray):
+        return value.tolist()
+    if isinstance(value, np.generic):
+        return value.item()
+    if isinstance(value, (list, tuple)):
+        return [_plain(val) for val in value]
+    return value
+
+
 @dataclass
 class Parameters:
     """Base class for all parameters with a couple of methods."""
@@ -48,7 +62,7 @@ class Parameters:
     def to_yaml(self, file_path: Path):
         """Write parameters to YAML file."""
         with open(file_path, "w", encoding="utf-8") as output_file:
-            yaml.dump(asdict(self), output_file, default_flow_style=False)
+            yaml.dump(_plain(asdict(self)), output_file, default_flow_style=False)
 
     @classmethod
     def from_yaml(cls, file_path: Path):
-- 
2.43.0


From 5bd32ad7834d62619c4f9d600ed4705dcf71a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 41/53] fix: orientation compared distorted projections with
 undistorted observations

---
 openptv_python/orientation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 28263f6..9fbbe82 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -19,7 +19,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -355,9 +355,8 @@ def orient(
             if not is_used_in_orientation(i, pix[i], flags):
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric image coordinates of the detected point
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From ffbd1a997aa9d626c673c2c666f81c43f7d5e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 42/53] fix: the glass vector could not be adjusted in
 orientation

---
 openptv_python/orientation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 9fbbe82..81eb1f3 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -310,9 +310,9 @@ def orient(
     glass_dir = cal.glass_par
     nGl = vec_norm(glass_dir)
 
-    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[0]
+    e1_x = 2 * cal.glass_par[2] - 3 * cal.glass_par[1]
     e1_y = 3 * cal.glass_par[0] - 1 * cal.glass_par[2]
-    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[1]
+    e1_z = 1 * cal.glass_par[1] - 2 * cal.glass_par[0]
     tmp_vec = vec_set(e1_x, e1_y, e1_z)
     e1 = unit_vector(tmp_vec)
 
@@ -351,6 +351,7 @@ def orient(
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
         n = 0
+        safety_x, safety_y, safety_z = cal.glass_par
         for i in range(nfix):
             if not is_used_in_orientation(i, pix[i], flags):
                 continue
-- 
2.43.0


From 9df14f96f4041d2be677e0736f4aac56e5611fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 43/53] fix: error estimates of parameters that are not
 adjusted were uninitialised memory

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 81eb1f3..254a3d2 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -883,7 +883,7 @@ def full_calibration(
     ------
     ValueError if iteration did not converge.
     """
-    err_est = np.empty((NPAR + 1), dtype=np.float64)
+    err_est = np.zeros((NPAR + 1), dtype=np.float64)
 
     if isinstance(img_pts, np.ndarray):
         # convert numpy array to list of Target objects
-- 
2.43.0


From 72e64cc2f0204a4f8aa801c99ec2b162a8bc5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 44/53] fix: ray_tracing gave NaN for rays perpendicular to the
 glass

---
 openptv_python/ray_tracing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..ea04caf 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -95,7 +95,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium1 / refractive_index_medium2
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1 / refractive_index_medium2
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
@@ -119,7 +119,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular_scaled)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium2 / refractive_index_medium3
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium2 / refractive_index_medium3
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
-- 
2.43.0


From 06acd0a3efe3e6b4220d4b475ffea065c6d095bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 45/53] fix: distortion used the already distorted x for y, so
 that correction did not undo it

---
 openptv_python/trafo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 5358ec5..be53959 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -149,19 +149,19 @@ def distort_brown_affine(
 
     r = np.sqrt(x**2 + y**2)
 
-    x += (
+    xq = x + (
         x * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[3] * (r**2 + 2 * x**2)
         + 2 * ap[4] * x * y
     )
-    y += (
+    yq = y + (
         y * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[4] * (r**2 + 2 * y**2)
         + 2 * ap[3] * x * y
     )
 
-    x1 = ap[5] * x - np.sin(ap[6]) * y
-    y1 = np.cos(ap[6]) * y
+    x1 = ap[5] * xq - np.sin(ap[6]) * yq
+    y1 = np.cos(ap[6]) * yq
 
     return x1, y1
 
-- 
2.43.0


From 85d522ad61aa5afe0f469302d7be5106ebeaf41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 46/53] fix: ray_tracing lost digits for rays nearly
 perpendicular to the glass

---
 openptv_python/ray_tracing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index ea04caf..3074d98 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -113,7 +113,6 @@ def fast_ray_tracing(
     a2_scaled = a2 * d2
     X = Xb + a2_scaled
 
-    n = np.dot(a2, glass_direction)
     transformed_direction_perpendicular_scaled = (
         a2 - transformed_direction_perpendicular_scaled
     )
-- 
2.43.0


From de725a8baeebc320cd72ef7b80e557961245a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 47/53] fix: correction of sheared distortion used the wrong y
 for the shear

---
 openptv_python/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index be53959..c43e26e 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -190,7 +190,7 @@ def correct_brown_affine(
         yq_common = yq * common_term
 
         xq = (
-            (x + yq * sin_she) / ap[5]
+            (x + y / cos_she * sin_she) / ap[5]
             - xq_common
             - ap[3] * (r**2 + 2 * xq**2)
             - two_p2 * xq * yq
@@ -210,7 +210,7 @@ def correct_brown_affine(
 
     r = rq
     x1 = (
-        (x + yq * sin_she) / ap[5]
+        (x + y / cos_she * sin_she) / ap[5]
         - xq * common_term
         - ap[3] * (r**2 + 2 * xq**2)
         - two_p2 * xq * yq
-- 
2.43.0


From 4498328c9ed28270c75c98582cf5098048f66ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 48/53] fix: volumedimension subtracted the principal point
 before correcting distortion

---
 openptv_python/multimed.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 7d0ba08..c0f95e1 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -10,7 +10,7 @@ from .parameters import (
     VolumePar,
 )
 from .ray_tracing import ray_tracing
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import correct_brown_affine, dist_to_flat, pixel_to_metric
 from .vec_utils import vec_norm
 
 
@@ -421,10 +421,7 @@ def volumedimension(
             for j in range(2):
                 x, y = pixel_to_metric(xc[i], yc[j], cpar)
 
-                x -= cal[i_cam].int_par.xh
-                y -= cal[i_cam].int_par.yh
-
-                x, y = correct_brown_affine(x, y, cal[i_cam].added_par)
+                x, y = dist_to_flat(x, y, cal[i_cam])
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-- 
2.43.0


From fbe647485ab085a3560a30fd871ebad6f1800c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 49/53] fix: init_mmlut kept a stale table for a new volume or
 changed camera

---
 openptv_python/multimed.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index c0f95e1..7d9d8a5 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -318,18 +318,18 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
-
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
-
-        # print(f"filled mmlut data with {data}")
-        # cal.mmlut_data = data
+    # always filled anew: an earlier table may belong to another volume or camera
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
+
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+
+    # print(f"filled mmlut data with {data}")
+    # cal.mmlut_data = data
 
     return cal
 
-- 
2.43.0


From 093a4fb6cc30b898b649488fcc4180a629431455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 50/53] fix: Calibration.copy did not copy

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 0f6180c..a55b355 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = self.glass_par.copy()
+        new_copy.added_par = self.added_par.copy()
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = self.mmlut_data.copy()
 
 
 def write_ori(
-- 
2.43.0


From 4e9f0b9861598bc213b5c38a6b2dbfc45a8b75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 51/53] fix: read_targets did not understand the old-type base
 names that write_targets does

---
 openptv_python/tracking_frame_buf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 6982dc5..5d87a87 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -171,6 +171,11 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
 
     if frame_num > 0:
         # filename = f"{file_base}{frame_num:04d}_targets"
+        # the same old-type names as in write_targets(): cam1.# or just cam1.
+        if "#" in file_base:
+            file_base = file_base.replace("#", "%05d")
+        if "%" not in file_base:
+            file_base = file_base + "%05d"
         fname = file_base % frame_num + "_targets"
     else:
         fname = f"{file_base}_targets"
-- 
2.43.0


From c10f9f9a3313a79ac7621cc2b742cdca89cecf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 52/53] fix: image filters and difference failed on every image
 (scipy calls inside njit)

---
 openptv_python/image_processing.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index bd47fdb..24eedf5 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -12,7 +12,6 @@ from .parameters import ControlPar
 filter_t = np.zeros((3, 3), dtype=float)
 
 
-@njit
 def filter_3(img, kernel=None) -> np.ndarray:
     """Apply a 3x3 filter to an image."""
     if kernel is None:  # default is a low pass
@@ -21,7 +20,6 @@ def filter_3(img, kernel=None) -> np.ndarray:
     return filtered_img
 
 
-@njit
 def lowpass_3(img: np.ndarray) -> np.ndarray:
     """Lowpass filter of 3x3."""
     # Define the 3x3 lowpass filter kernel
@@ -33,7 +31,6 @@ def lowpass_3(img: np.ndarray) -> np.ndarray:
     return img_lp
 
 
-@njit
 def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarray:
     """Fast box blur."""
     n = 2 * filt_span + 1
@@ -62,7 +59,6 @@ def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarr
 #     return new_img
 
 
-@njit
 def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> None:
     """
     Subtract img2 from img1 and store the result in img_new.
@@ -72,7 +68,8 @@ def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> Non
     img1, img2: numpy arrays containing the original images.
     img_new: numpy array to store the result.
     """
-    img_new[:] = ndimage.maximum(img1 - img2, 0)
+    # no difference below black
+    img_new[:] = np.where(img1 > img2, img1 - img2, 0)
 
 
 @njit
-- 
2.43.0


From 6c13240fcb7ad22e807949de61e731830cc1798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 53/53] fix: read_man_ori_fix could read neither block nor
 choice files, malformed and empty blocks

---
 openptv_python/orientation.py | 17 ++++++-----------
 openptv_python/sortgrid.py    |  4 ++--
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 254a3d2..835a0a0 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -17,6 +17,7 @@ from .imgcoord import img_coord
 # from .lsqadj import ata, atl, matinv, matmul
 from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
+from .sortgrid import read_calblock as read_calblock_points
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
 from .trafo import pixel_to_metric
@@ -725,10 +726,9 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_fix = 0
     num_match = 0
 
+    # four numbers per camera, on one line or on lines of their own
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
@@ -750,14 +750,9 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
 
 def read_calblock(filename):
     """Read the calibration block file."""
-    with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
-        fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
-            parts = line.split()
-            fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
-    return fix, num_fix
+    block = read_calblock_points(filename).reshape(-1)
+    fix = np.c_[block.x, block.y, block.z]
+    return fix, len(fix)
 
 
 def dumbbell_target_func(
diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 44559ea..fd35d54 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -150,8 +150,8 @@ def read_calblock(filename: Path) -> np.recarray:  # List[Coord3d]:
     except FileNotFoundError:
         print(f"Can't open calibration block file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
-    except ValueError:
+    except (IndexError, ValueError):
         print(f"Empty or badly formatted file: {filename}")
         return np.recarray(0, dtype=Coord3d_dtype)
 
-    return np.array(coords).view(np.recarray)
+    return np.array(coords, dtype=Coord3d_dtype).view(np.recarray)
-- 
2.43.0

