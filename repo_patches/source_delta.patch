From 7a7f4a558bd0d3533205f3e50f4d592777d0f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/49] fix: write_targets fails on a frame without any target

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..1981bad 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -230,7 +230,7 @@ def write_targets(
         # Convert targets to a 2D numpy array
         target_arr = np.array(
             [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From 83e76699e06837a17de0e7ef7934dfff3b002c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 02/49] fix: write_path_frame crashes when no prio file is
 requested

---
 openptv_python/tracking_frame_buf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 1981bad..af1c00f 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -846,7 +846,7 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
             prio_file.write(f"{num_parts}\n")
 
@@ -864,7 +864,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -873,7 +873,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From 712a8a48e5ef758178d0eaf15c8dc0eb9700959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/49] fix: read_targets cannot read back files that
 write_targets names

---
 openptv_python/tracking_frame_buf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index af1c00f..f6e64f2 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -169,7 +169,13 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
     # # if file_base has an extension, remove it
     # file_base = file_base.split(".")[0]
 
+    # fix old-type names the same way write_targets does
+    if "#" in file_base:
+        file_base = file_base.replace("#", "%05d")
+
     if frame_num > 0:
+        if "%" not in file_base:
+            file_base = file_base + "%05d"
         # filename = f"{file_base}{frame_num:04d}_targets"
         fname = file_base % frame_num + "_targets"
     else:
-- 
2.43.0


From 1930da90af190067b4fcc13aa74fca80aa7e708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 04/49] fix: reading a frame with missing files reports success

---
 openptv_python/tracking_frame_buf.py | 37 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index f6e64f2..b634d54 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -347,27 +347,27 @@ class Frame:
         frame_num: int,
     ) -> bool:
         """Read a frame from the disk."""
-        cor_buf, path_buf = read_path_frame(
-            # self.correspond, self.path_info = read_path_frame(
-            corres_file_base,
-            linkage_file_base,
-            prio_file_base,
-            frame_num,
-        )
+        try:
+            cor_buf, path_buf = read_path_frame(
+                # self.correspond, self.path_info = read_path_frame(
+                corres_file_base,
+                linkage_file_base,
+                prio_file_base,
+                frame_num,
+            )
+        except IOError:
+            return False
 
         self.correspond = cor_buf
         self.path_info = path_buf
         self.num_parts = len(self.correspond)
 
-        if self.num_parts == -1:
-            return False
-
         for cam in range(self.num_cams):
-            self.targets[cam] = read_targets(target_file_base[cam], frame_num)
-            self.num_targets[cam] = len(self.targets[cam])
-
-            if self.num_targets[cam] == -1:
+            try:
+                self.targets[cam] = read_targets(target_file_base[cam], frame_num)
+            except IOError:
                 return False
+            self.num_targets[cam] = len(self.targets[cam])
 
         return True
 
@@ -719,7 +719,8 @@ def read_path_frame(
         * between the name and the frame number.
         *
         * Returns:
-        * The number of points read for this frame. -1 on failure.
+        * The correspondence and path buffers read for this frame. A file that
+        * can not be opened raises IOError.
     */
 
     """
@@ -730,7 +731,7 @@ def read_path_frame(
         filein = open(fname, "r", encoding="utf-8")
     except IOError:
         print(f"Can't open ascii file: {fname}")
-        return np.recarray(0, dtype=Corres_dtype), []
+        raise
 
     # we do not need number of particles, reading till EOF
     n_particles = int(filein.readline())
@@ -749,7 +750,7 @@ def read_path_frame(
             linkagein = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open linkage file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         linkagein.readline()
     else:
@@ -761,7 +762,7 @@ def read_path_frame(
             prioin = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open prio file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         prioin.readline()
     else:
-- 
2.43.0


From ffd64288559b74c65ff37777be24ce55c172947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/49] fix: sorting track candidates duplicates records
 instead of swapping

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..f3bf1d8 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -508,7 +508,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -521,7 +521,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From 66750fb62e6f8df71405cefcad5e3645843bbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/49] fix: missing track candidates are taken for the last
 target

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f3bf1d8..b06b127 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From 91088d6bb6ec0632875e11690ac2c117340e7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 07/49] fix: adding a particle overwrites the missing cameras'
 targets and whole correspondence table

---
 openptv_python/track.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index b06b127..02a246d 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -731,7 +730,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
         ref_corres = frm.correspond[num_parts]
     else:
@@ -740,7 +739,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
+        ref_corres = frm.correspond[num_parts]
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
@@ -751,7 +750,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 567c52c0686532e1177a2bd66c85cce7b8e4a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 08/49] fix: backward tracking never accepts an added particle

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 02a246d..6a721ab 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1110,7 +1110,7 @@ def trackcorr_c_finish(run_info, step: int):
 def trackback_c(run_info: TrackingRun):
     """Trackback algorithm in C."""
     count1, count2, num_added, quali = 0, 0, 0, 0
-    Ymin, Ymax, npart, nlinks = 0, 0, 0.0, 0.0
+    npart, nlinks = 0.0, 0.0
 
     philf = np.zeros((4, MAX_CANDS))
     X = np.empty((6, 3))
@@ -1210,7 +1210,7 @@ def trackback_c(run_info: TrackingRun):
                         # volume check
                         if (
                             vpar.x_lay[0] < X[3][0] < vpar.x_lay[1]
-                            and Ymin < X[3][1] < Ymax
+                            and run_info.ymin < X[3][1] < run_info.ymax
                             and vpar.z_min_lay[0] < X[3][2] < vpar.z_max_lay[1]
                         ):
                             in_volume = 1
-- 
2.43.0


From b5368971aa08f3dae5c42e8d17a14a349bd5ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 09/49] fix: tracking ignores that a frame could not be written

---
 openptv_python/track.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 6a721ab..77b8cbe 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1088,7 +1088,8 @@ def trackcorr_c_loop(run_info, step):
     run_info.nlinks = run_info.nlinks + count1
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    if not fb.write_frame_from_start(step):
+        raise IOError("Could not write frame to disk")
 
     if step < run_info.seq_par.last - 2:
         fb.read_frame_at_end(step + 3, False)
@@ -1104,7 +1105,8 @@ def trackcorr_c_finish(run_info, step: int):
     )
 
     run_info.fb.fb_next()
-    run_info.fb.write_frame_from_start(step)
+    if not run_info.fb.write_frame_from_start(step):
+        raise IOError("Could not write frame to disk")
 
 
 def trackback_c(run_info: TrackingRun):
@@ -1300,7 +1302,8 @@ def trackback_c(run_info: TrackingRun):
         nlinks += count1
 
         fb.fb_next()
-        fb.write_frame_from_start(step)
+        if not fb.write_frame_from_start(step):
+            raise IOError("Could not write frame to disk")
 
         if step > seq_par.first + 2:
             fb.read_frame_at_end(step - 3, read_links=True)
@@ -1324,7 +1327,8 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    if not fb.write_frame_from_start(step):
+        raise IOError("Could not write frame to disk")
 
     return nlinks
 
-- 
2.43.0


From 0e1db81ac25051743f20c4ab247814f5b2a68214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 10/49] fix: correspondences counts unused scratch rows as
 matches

---
 openptv_python/correspondences.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..ef7a48b 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -653,31 +653,33 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
+        matched = four_camera_matching(
             corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:matched], con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
+        matched = three_camera_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
+        matched = consistent_pair_matching(
             corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched], con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From 8aa16d071bec9c748e8735319dde2b8287397e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/49] fix: triplet search matches unfilled candidate slots

---
 openptv_python/correspondences.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index ef7a48b..0242250 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -187,7 +187,7 @@ def three_camera_matching(
 
                 for j in range(corr_list[i1][i2][i].n):
                     p2 = corr_list[i1][i2][i].p2[j]
-                    if p2 > nmax or tusage[i2][p2] > 0:
+                    if p2 >= nmax or tusage[i2][p2] > 0:
                         continue
 
                     # print(f"p2 {p2}")
@@ -195,7 +195,7 @@ def three_camera_matching(
                     for i3 in range(i2 + 1, num_cams):
                         for k in range(corr_list[i1][i3][i].n):
                             p3 = corr_list[i1][i3][i].p2[k]
-                            if p3 > nmax or tusage[i3][p3] > 0:
+                            if p3 >= nmax or tusage[i3][p3] > 0:
                                 continue
 
                             # print(f"p3 {p3}")
@@ -204,7 +204,9 @@ def three_camera_matching(
                             # we want to find indices, we have to either
                             # modify it to numpy array or use
                             # indices
-                            p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            p2array = np.atleast_1d(
+                                corr_list[i2][i3][p2].p2[: corr_list[i2][i3][p2].n]
+                            )
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From acbd31bd1b1a64f5334a82de7f70a1da88b83be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 12/49] fix: correspondences of two or three cameras index past
 their buffers

---
 openptv_python/correspondences.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0242250..a7b4a71 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -11,6 +11,7 @@ from .constants import (
     MAXCAND,
     NMAX,
     PT_UNUSED,
+    TR_MAX_CAMS,
 )
 from .epi import epi_mm
 from .find_candidate import find_candidate
@@ -230,7 +231,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(TR_MAX_CAMS, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
@@ -529,7 +530,7 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    match_counts = [0] * TR_MAX_CAMS
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -582,7 +583,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[TR_MAX_CAMS - 1]
 
     return sorted_pos, sorted_corresp, num_targs
 
@@ -631,11 +632,11 @@ def correspondences(
     nmax = NMAX
 
     # Allocation of scratch buffers for internal tasks and return-value space
-    con0 = np.recarray((nmax * cpar.num_cams,), dtype=n_tupel_dtype)
+    con0 = np.recarray((nmax * TR_MAX_CAMS,), dtype=n_tupel_dtype)
     con0.p = 0
     con0.corr = 0.0
 
-    con = np.recarray((nmax * cpar.num_cams,), dtype=n_tupel_dtype)
+    con = np.recarray((nmax * TR_MAX_CAMS,), dtype=n_tupel_dtype)
     con.p = 0
     con.corr = 0.0
 
-- 
2.43.0


From 8e4b2f37570bb2460de8727216ee1a9f7f6c4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 13/49] fix: control parameters read from YAML or a dictionary
 keep a raw dict and clobber the input

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..9bf4231 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -53,7 +53,7 @@ class Parameters:
         """Read from YAML file."""
         with open(file_path, "r", encoding="utf-8") as file:
             data_dict = yaml.safe_load(file)
-            return cls(**data_dict)
+            return cls.from_dict(data_dict)
 
 
 @dataclass
@@ -458,8 +458,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From 3e7c54109b1338b5bda6857220a4c6507ca27a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 14/49] fix: compare_mm_np ignores all layers but the first

---
 openptv_python/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 9bf4231..477c4dd 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, list(mm_np1.n2), list(mm_np1.d)) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        list(mm_np2.n2),
+        list(mm_np2.d),
     )
 
 
-- 
2.43.0


From fefd4043ed6eed1438bd7e6e3c90288869e3b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 15/49] fix: missing parameter files are read as defaults or
 raise a string

---
 openptv_python/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 477c4dd..8295d2c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,9 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(
+                f"Error reading tracking parameters from {filename}"
+            ) from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
@@ -662,7 +664,7 @@ class TargetPar(Parameters):
             # return ret
         except IOError:
             print(f"Could not open target recognition parameters file {filename}.")
-            # return None
+            raise
 
         return ret
 
@@ -755,6 +757,7 @@ class OrientPar(Parameters):
 
         except IOError:
             print(f"Could not open orientation parameters file {filename}.")
+            raise
 
         return ret
 
-- 
2.43.0


From 33827b89c0de56bd6da7892c343e395c7a2fb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 16/49] fix: pft_version.par is written with the class default
 in an unreadable form

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 8295d2c..9285b94 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -868,8 +868,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From c1ec07585e97622b8c28a725240617843c21d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 17/49] fix: refraction applies the first layer's index to
 every layer

---
 openptv_python/multimed.py   | 4 ++--
 openptv_python/parameters.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..c80dbca 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -83,13 +83,13 @@ def fast_multimed_r_nlay(
 
     while abs(rdiff) > 0.001 and it < n_iter:
         beta1 = np.arctan(rq / zdiff)
-        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[0])
+        beta2 = np.arcsin(np.sin(beta1) * n1 / n2[:nlay])
         beta3 = np.arcsin(np.sin(beta1) * n1 / n3)
 
         rbeta = (
             (z0 - d[0]) * np.tan(beta1)
             - zout * np.tan(beta3)
-            + np.sum(d * np.tan(beta2))
+            + np.sum(d[:nlay] * np.tan(beta2))
         )
 
         rdiff = r - rbeta
diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 9285b94..873227c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -105,7 +105,7 @@ class MultimediaPar(Parameters):
         else:
             self.n2 = refr_index
             self.d = thickness
-            # self.nlay = len(refr_index)
+            self.nlay = len(refr_index)
 
     def __str__(self) -> str:
         return f"nlay = {self.nlay}, n1 = {self.n1}, n2 = {self.n2}, d = {self.d}, n3 = {self.n3}"
-- 
2.43.0


From 48e4d4b3ee9cc8c91d9f68e2317ba9764aee5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 18/49] fix: rounding turns perpendicular rays and straight
 tracks into NaN

---
 openptv_python/ray_tracing.py | 4 ++--
 openptv_python/track.py       | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/openptv_python/ray_tracing.py b/openptv_python/ray_tracing.py
index 30c2b34..ea04caf 100644
--- a/openptv_python/ray_tracing.py
+++ b/openptv_python/ray_tracing.py
@@ -95,7 +95,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium1 / refractive_index_medium2
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium1 / refractive_index_medium2
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
@@ -119,7 +119,7 @@ def fast_ray_tracing(
     )
     bp = unit_vector(transformed_direction_perpendicular_scaled)
 
-    p = np.sqrt(1 - n**2) * refractive_index_medium2 / refractive_index_medium3
+    p = np.sqrt(max(0.0, 1 - n**2)) * refractive_index_medium2 / refractive_index_medium3
     n = -np.sqrt(1 - p**2)
 
     transformed_direction_parallel_scaled = bp * p
diff --git a/openptv_python/track.py b/openptv_python/track.py
index 77b8cbe..0bc072c 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -260,9 +260,8 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        cosine = dot_product / (norm_start_pred * norm_start_cand)
+        angle = (200.0 / np.pi) * np.arccos(min(1.0, max(-1.0, cosine)))
 
     return np.array([angle, acc])
 
-- 
2.43.0


From c4f544a477c32d1976f7b19be5e8290b6fb48bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 19/49] fix: tracking a particle at rest divides by zero

---
 openptv_python/track.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 0bc072c..2706fe3 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -260,8 +260,12 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
         norm_start_pred = np.linalg.norm(start - pred)
         norm_start_cand = np.linalg.norm(start - cand)
 
-        cosine = dot_product / (norm_start_pred * norm_start_cand)
-        angle = (200.0 / np.pi) * np.arccos(min(1.0, max(-1.0, cosine)))
+        norm_product = norm_start_pred * norm_start_cand
+        if norm_product == 0:  # no direction for a particle at rest
+            angle = 200
+        else:
+            cosine = dot_product / norm_product
+            angle = (200.0 / np.pi) * np.arccos(min(1.0, max(-1.0, cosine)))
 
     return np.array([angle, acc])
 
-- 
2.43.0


From f4948297db4a827901ca788aa93c1e7ad7b1c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 20/49] fix: move_along_ray overwrites the caller's ray
 direction

---
 openptv_python/multimed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index c80dbca..3116efa 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -231,11 +231,12 @@ def move_along_ray(glob_z: float, vertex: np.ndarray, direct: np.ndarray) -> np.
 
     """
     out = np.zeros(3, dtype=np.float64)
-    if direct[2] == 0:
-        direct[2] = 1  # avoid division by zero
+    dz = direct[2]
+    if dz == 0:
+        dz = 1.0  # avoid division by zero
 
-    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / direct[2]
-    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / direct[2]
+    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / dz
+    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / dz
     out[2] = glob_z
 
     return out
-- 
2.43.0


From 6ab6d0f841c4e25c71250730d117a605d29d0805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 21/49] fix: volumedimension extends rays to the wrong lower
 plane

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 3116efa..819adc9 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -428,9 +428,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From e1ce8f722ac836b2cfe491ee602f2a59011da2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 22/49] fix: sensor limits shift the principal point before
 undoing distortion

---
 openptv_python/find_candidate.py | 10 +++-------
 openptv_python/multimed.py       | 11 +++--------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..dede285 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -9,7 +9,7 @@ from .constants import MAXCAND
 from .epi import Candidate_dtype
 from .parameters import ControlPar, VolumePar
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine
+from .trafo import dist_to_flat
 
 
 def find_candidate(
@@ -67,13 +67,9 @@ def find_candidate(
     xmax = cpar.pix_x * cpar.imx / 2
     ymin = (-1) * cpar.pix_y * cpar.imy / 2
     ymax = cpar.pix_y * cpar.imy / 2
-    xmin -= cal.int_par.xh
-    ymin -= cal.int_par.yh
-    xmax -= cal.int_par.xh
-    ymax -= cal.int_par.yh
 
-    xmin, ymin = correct_brown_affine(xmin, ymin, cal.added_par)
-    xmax, ymax = correct_brown_affine(xmax, ymax, cal.added_par)
+    xmin, ymin = dist_to_flat(xmin, ymin, cal)
+    xmax, ymax = dist_to_flat(xmax, ymax, cal)
 
     # line equation: y = m*x + b
     if xa == xb:  # the line is a point or a vertical line in this camera
diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 819adc9..1532d88 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -10,7 +10,7 @@ from .parameters import (
     VolumePar,
 )
 from .ray_tracing import ray_tracing
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import dist_to_flat, pixel_to_metric
 from .vec_utils import vec_norm
 
 
@@ -267,9 +267,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     for i in range(2):
         for j in range(2):
             x, y = pixel_to_metric(xc[i], yc[j], cpar)
-            x -= cal.int_par.xh
-            y -= cal.int_par.yh
-            x, y = correct_brown_affine(x, y, cal.added_par)
+            x, y = dist_to_flat(x, y, cal)
             pos, a = ray_tracing(x, y, cal, cpar.mm)
             xyz = move_along_ray(z_min, pos, a)
             xyz_t, _, _, cal_t.ext_par.z0 = trans_cam_point(
@@ -421,10 +419,7 @@ def volumedimension(
             for j in range(2):
                 x, y = pixel_to_metric(xc[i], yc[j], cpar)
 
-                x -= cal[i_cam].int_par.xh
-                y -= cal[i_cam].int_par.yh
-
-                x, y = correct_brown_affine(x, y, cal[i_cam].added_par)
+                x, y = dist_to_flat(x, y, cal[i_cam])
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-- 
2.43.0


From 4825d70132f567371e2d61dd984a15bd6f37c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 23/49] fix: multimedia lookup reads past the table and keeps a
 stale table

---
 openptv_python/multimed.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 1532d88..d176a72 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -316,15 +316,15 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
+    # always refill: the table has to match the grid stored above
+    cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
 
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
 
         # print(f"filled mmlut data with {data}")
         # cal.mmlut_data = data
@@ -360,9 +360,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the interpolation box needs the next grid line in both directions
+    if ir >= nr - 1:
         return 0.0
-    if iz < 0 or iz > nz:
+    if temp[2] < 0 or iz >= nz - 1:
         return 0.0
 
     # bilinear interpolation in r/z box
@@ -377,7 +378,7 @@ def fast_get_mmf_from_mmlut(
     # 2. check wther point is inside camera's object volume
     # important for epipolar line computation
     for i in range(4):
-        if v4[i] < 0 or v4[i] > nr * nz:
+        if v4[i] < 0 or v4[i] >= nr * nz:
             return 0.0
 
     # interpolate
-- 
2.43.0


From c54625875066b94ba3149e0039dcfeb2e41060e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 24/49] fix: distortion and its correction are not inverses of
 each other

---
 openptv_python/trafo.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 5358ec5..4810ee5 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -149,16 +149,18 @@ def distort_brown_affine(
 
     r = np.sqrt(x**2 + y**2)
 
-    x += (
+    dx = (
         x * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[3] * (r**2 + 2 * x**2)
         + 2 * ap[4] * x * y
     )
-    y += (
+    dy = (
         y * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[4] * (r**2 + 2 * y**2)
         + 2 * ap[3] * x * y
     )
+    x += dx
+    y += dy
 
     x1 = ap[5] * x - np.sin(ap[6]) * y
     y1 = np.cos(ap[6]) * y
@@ -190,7 +192,7 @@ def correct_brown_affine(
         yq_common = yq * common_term
 
         xq = (
-            (x + yq * sin_she) / ap[5]
+            (x + y / cos_she * sin_she) / ap[5]
             - xq_common
             - ap[3] * (r**2 + 2 * xq**2)
             - two_p2 * xq * yq
@@ -210,7 +212,7 @@ def correct_brown_affine(
 
     r = rq
     x1 = (
-        (x + yq * sin_she) / ap[5]
+        (x + y / cos_she * sin_she) / ap[5]
         - xq * common_term
         - ap[3] * (r**2 + 2 * xq**2)
         - two_p2 * xq * yq
-- 
2.43.0


From 1146189fcb5963f5e154278dc1a1efde4a9b38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 25/49] fix: write_ori reports failure when no added parameters
 file is requested

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..d964445 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -416,7 +416,7 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
-- 
2.43.0


From 0426cb844bf82aa1060fa9ac05d0a1c184ad4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 26/49] fix: read_ori returns a default calibration

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index d964445..46bacc4 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From 6de687da29e024b675eb424978580750dff8d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 27/49] fix: set_rotation_matrix raises on every matrix

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 46bacc4..7ddb9ab 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From b1c0121a70a70854912cf396342027a76c7e69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 28/49] fix: Calibration.copy copies nothing and would share
 arrays

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 7ddb9ab..d785fca 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = self.ext_par.copy()
+        new_copy.int_par = self.int_par.copy()
+        new_copy.glass_par = self.glass_par.copy()
+        new_copy.added_par = self.added_par.copy()
+        new_copy.mmlut = self.mmlut.copy()
+        new_copy.mmlut_data = self.mmlut_data.copy()
 
 
 def write_ori(
-- 
2.43.0


From 3b38ffd0c3f3e4e2369cd6435f13f5edd22cec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 29/49] fix: calibration getters hand out the internal arrays

---
 openptv_python/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index d785fca..5dc15e3 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -318,7 +318,7 @@ class Calibration:
         array, from lowest power to highest.
         """
         # return np.r_[self.added_par.k1, self.added_par.k2, self.added_par.k3]
-        return self.added_par[:3]
+        return self.added_par[:3].copy()
 
     def set_decentering(self, decent: np.ndarray) -> None:
         """
@@ -337,7 +337,7 @@ class Calibration:
     def get_decentering(self):
         """Return the decentering parameters [1] as a 2 element array, (p_1, p_2)."""
         # return np.r_[self.added_par.p1, self.added_par.p2]
-        return self.added_par[3:5]
+        return self.added_par[3:5].copy()
 
     def set_affine_distortion(self, affine: np.ndarray) -> None:
         """
@@ -356,7 +356,7 @@ class Calibration:
     def get_affine(self):
         """Return the affine transform parameters [1] as a 2 element array, (scx, she)."""
         # return np.r_[self.added_par.scx, self.added_par.she]
-        return self.added_par[5:]
+        return self.added_par[5:].copy()
 
     def set_glass_vec(self, gvec: np.ndarray):
         """
@@ -377,7 +377,7 @@ class Calibration:
 
     def get_glass_vec(self) -> np.ndarray:
         """Return the glass vector, a 3-element array of float."""
-        return self.glass_par
+        return self.glass_par.copy()
 
     def set_added_par(self, ap52_array: np.ndarray):
         """Set added par from an numpy array of parameters."""
-- 
2.43.0


From 8cc03e3b3c54704805aeb65a48923d4aaba62165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 30/49] fix: compare_calibration ignores the added parameters

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 5dc15e3..9beb385 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 01b67984995783cea82f8190c8f0b06415d9b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 31/49] fix: incrementing an angle leaves the rotation matrix
 stale

---
 openptv_python/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 9beb385..9996af8 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -213,6 +213,8 @@ class Calibration:
                 attr_name,
                 getattr(self.int_par, attr_name) + increment_value,
             )
+        if attr_name in ("omega", "phi", "kappa"):
+            self.update_rotation_matrix()
 
     def update_rotation_matrix(self) -> None:
         """Update the rotation matrix of the exterior orientation."""
-- 
2.43.0


From 8b5d377bf172582458ef9d485e3f673d619a8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 32/49] fix: image filters can not be compiled and fail on
 every call

---
 openptv_python/image_processing.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index bd47fdb..3a63b7f 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -12,7 +12,6 @@ from .parameters import ControlPar
 filter_t = np.zeros((3, 3), dtype=float)
 
 
-@njit
 def filter_3(img, kernel=None) -> np.ndarray:
     """Apply a 3x3 filter to an image."""
     if kernel is None:  # default is a low pass
@@ -21,7 +20,6 @@ def filter_3(img, kernel=None) -> np.ndarray:
     return filtered_img
 
 
-@njit
 def lowpass_3(img: np.ndarray) -> np.ndarray:
     """Lowpass filter of 3x3."""
     # Define the 3x3 lowpass filter kernel
@@ -33,7 +31,6 @@ def lowpass_3(img: np.ndarray) -> np.ndarray:
     return img_lp
 
 
-@njit
 def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarray:
     """Fast box blur."""
     n = 2 * filt_span + 1
@@ -62,7 +59,6 @@ def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarr
 #     return new_img
 
 
-@njit
 def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> None:
     """
     Subtract img2 from img1 and store the result in img_new.
@@ -72,7 +68,7 @@ def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> Non
     img1, img2: numpy arrays containing the original images.
     img_new: numpy array to store the result.
     """
-    img_new[:] = ndimage.maximum(img1 - img2, 0)
+    img_new[:] = np.where(img1 > img2, img1 - img2, 0)
 
 
 @njit
-- 
2.43.0


From c2877b71498dd6708c9b1395fc0596b4633d3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 33/49] fix: sortgrid renumbers the caller's detections and
 shares them between points

---
 openptv_python/sortgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..ec11e26 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+from dataclasses import replace
 from pathlib import Path
 from typing import List
 
@@ -62,8 +63,7 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
-                sorted_pix[i].pnr = i
+                sorted_pix[i] = replace(pix[j], pnr=i)
 
     return sorted_pix
 
-- 
2.43.0


From a6ef1783cd1af3dd8d33bf77fa6fbf44d49a6b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 34/49] fix: target recognition reads past an image smaller
 than the configured size

---
 openptv_python/segmentation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index 9ae39d7..d718996 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -49,10 +49,12 @@ def targ_rec(
         xmin = 1
     if ymin <= 0:
         ymin = 1
-    if xmax >= cpar.imx:
-        xmax = cpar.imx - 1
-    if ymax >= cpar.imy:
-        ymax = cpar.imy - 1
+    imx = min(cpar.imx, img.shape[1])
+    imy = min(cpar.imy, img.shape[0])
+    if xmax >= imx:
+        xmax = imx - 1
+    if ymax >= imy:
+        ymax = imy - 1
 
     nnmin, nnmax = targ_par.nnmin, targ_par.nnmax
     nxmin, nxmax = targ_par.nxmin, targ_par.nxmax
-- 
2.43.0


From acf10e29270eea4ae7c1b21670ec706792af0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 35/49] fix: peak_fit crashes or reads past the image on any
 peak

---
 openptv_python/segmentation.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index d718996..c169458 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -282,12 +282,16 @@ def peak_fit(
     x1, x2, y1, y2, s12 = 0.0, 0.0, 0.0, 0.0, 0.0
     label_img = [0] * (imx * imy)
     peaks: List[Peak] = []
-    waitlist: List[List[int]] = [[]]
+    waitlist: List[List[int]] = [[0, 0] for _ in range(imx * imy)]
     pix: List[Target] = []
     n_target = 0
 
-    for i in range(ymin, ymax - 1):
-        for j in range(xmin, xmax):
+    # flat image, in integers that can hold sums of grey values
+    img = img.astype(int).reshape(-1)
+
+    # the local maximum test looks at all neighbours
+    for i in range(max(ymin, 1), min(ymax, imy) - 1):
+        for j in range(max(xmin, 1), min(xmax, imx - 1)):
             n = i * imx + j
 
             # compare with threshold
@@ -313,7 +317,7 @@ def peak_fit(
                 # label peak in label_img, initialize peak
                 n_peaks += 1
                 label_img[n] = n_peaks
-                peaks.append(Peak(pos=n, status=1, xmin=j, xmax=i, ymin=i, ymax=i))
+                peaks.append(Peak(pos=n, status=1, xmin=j, xmax=j, ymin=i, ymax=i))
 
                 waitlist[0][0] = j
                 waitlist[0][1] = i
@@ -354,6 +358,8 @@ def peak_fit(
                             and (xn < xmax)
                             and (yn >= ymin)
                             and (yn < ymax - 1)
+                            and 0 < xn < imx - 1
+                            and 0 < yn < imy - 1
                             and (gv <= gvref + disco)
                             and (gvref + disco >= img[imx * (yn - 1) + xn])
                             and (gvref + disco >= img[imx * (yn + 1) + xn])
@@ -400,21 +406,21 @@ def peak_fit(
                     ptr_peak.ymax = i
 
                 # get touch events
-                if i > 0 and j > 1:
+                if i > 0 and j > 0:
                     check_touch(ptr_peak, pnr, label_img[n - imx - 1])
                 if i > 0:
                     check_touch(ptr_peak, pnr, label_img[n - imx])
-                if i > 0 and j < imy - 1:
+                if i > 0 and j < imx - 1:
                     check_touch(ptr_peak, pnr, label_img[n - imx + 1])
                 if j > 0:
                     check_touch(ptr_peak, pnr, label_img[n - 1])
-                if j < imy - 1:
+                if j < imx - 1:
                     check_touch(ptr_peak, pnr, label_img[n + 1])
-                if i < imx - 1 and j > 0:
+                if i < imy - 1 and j > 0:
                     check_touch(ptr_peak, pnr, label_img[n + imx - 1])
-                if i < imx - 1:
+                if i < imy - 1:
                     check_touch(ptr_peak, pnr, label_img[n + imx])
-                if i < imx - 1 and j < imy - 1:
+                if i < imy - 1 and j < imx - 1:
                     check_touch(ptr_peak, pnr, label_img[n + imx + 1])
 
     # 3.: reunification test: profile and distance
@@ -470,7 +476,7 @@ def peak_fit(
 
             # otherwise unify targets
             unified += 1
-            peaks[i].unr = p2
+            peaks[i].unr = p2 + 1
             peaks[p2].x += peaks[i].x
             peaks[p2].y += peaks[i].y
             peaks[p2].sumg += peaks[i].sumg
@@ -543,11 +549,11 @@ def check_touch(tpeak, p1, p2):
 
     # mark touch event
     if not done:
-        tpeak.touch[tpeak.n_touch] = p2
-        tpeak.n_touch += 1
         # don't allow for more than 4 touches
         if tpeak.n_touch > 3:
-            tpeak.n_touch = 3
+            return
+        tpeak.touch.append(p2)
+        tpeak.n_touch += 1
 
 
 def peak_fit_new(
-- 
2.43.0


From f92ffeafc670ba632d04a1d9518499cb19959fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 36/49] fix: point_positions returns only the last point's
 position

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From fe3b6585f878fefbed2ee414114419c5a0dbd9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 37/49] fix: point_position divides by zero for a point seen by
 fewer than two cameras

---
 openptv_python/orientation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..70440a1 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -105,6 +105,10 @@ def point_position(
             dtot += tmp
             point_tot += point
 
+    if num_used_pairs == 0:
+        # fewer than two rays: the position is undefined
+        return float("nan"), np.full(3, np.nan)
+
     res = point_tot / num_used_pairs
     dtot /= num_used_pairs
 
-- 
2.43.0


From 0278443bd725a4ad352433cd0a8c133c13a8b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 38/49] fix: orient discards the glass update of every
 iteration but the last

---
 openptv_python/orientation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 70440a1..4014bab 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -320,17 +320,18 @@ def orient(
         cal.added_par[6],
     ]
 
-    # backup for changing back and forth
-    safety_x = cal.glass_par[0]
-    safety_y = cal.glass_par[1]
-    safety_z = cal.glass_par[2]
-
     itnum = 0
     stopflag = False
     n = 0
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
         n = 0
+
+        # backup for changing back and forth
+        safety_x = cal.glass_par[0]
+        safety_y = cal.glass_par[1]
+        safety_z = cal.glass_par[2]
+
         for i in range(nfix):
             if pix[i].pnr != i:  # we need to check this point here
                 continue
-- 
2.43.0


From f1eaa9f930210ec9e9c0e6e3dd2481ff46760861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 39/49] fix: orient alters the calibration when it does not
 converge

---
 openptv_python/orientation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 4014bab..eb09d33 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -320,6 +320,11 @@ def orient(
         cal.added_par[6],
     ]
 
+    # work on a copy, the given calibration is updated only on success
+    cal_in = cal
+    cal = Calibration()
+    cal_in.copy(cal)
+
     itnum = 0
     stopflag = False
     n = 0
@@ -612,6 +617,7 @@ def orient(
 
     if stopflag:
         cal.update_rotation_matrix()
+        cal.copy(cal_in)
         return resi
     else:
         return None
-- 
2.43.0


From 51b6bb2e85e80bd70565d9593b83691ffbcc2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 40/49] fix: orient compares undistorted detections with
 distorted projections

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index eb09d33..16a96fd 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -18,7 +18,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -348,9 +348,9 @@ def orient(
             elif flags.useflag == 3 and i % 3 == 0:
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric (distorted) image coordinates of the detected point,
+            # as img_coord gives for the projection of the known point
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From e727e597ef000f454150a5da8fad5653de6b6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 41/49] fix: raw_orient leaves a stale rotation matrix when it
 does not converge

---
 openptv_python/orientation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 16a96fd..ba6d887 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -702,8 +702,7 @@ def raw_orient(
         cal.ext_par.phi += beta[4]
         cal.ext_par.kappa += beta[5]
 
-    if stopflag:
-        cal.update_rotation_matrix()
+    cal.update_rotation_matrix()
 
     return stopflag
 
-- 
2.43.0


From 10b9cb662d043117c882bee5444b9bdfb4d9d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 42/49] fix: full_calibration pairs residuals with the wrong
 points

---
 openptv_python/orientation.py | 39 ++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index ba6d887..0717781 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -197,6 +197,21 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def is_used_for_orientation(i: int, pix: List[Target], flags: OrientPar) -> bool:
+    """Tell if the i-th point is matched and not left out by flags.useflag."""
+    if pix[i].pnr != i:  # we need to check this point here
+        return False
+
+    if flags.useflag == 1 and i % 2 == 0:
+        return False
+    elif flags.useflag == 2 and i % 2 != 0:
+        return False
+    elif flags.useflag == 3 and i % 3 == 0:
+        return False
+
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -338,14 +353,7 @@ def orient(
         safety_z = cal.glass_par[2]
 
         for i in range(nfix):
-            if pix[i].pnr != i:  # we need to check this point here
-                continue
-
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not is_used_for_orientation(i, pix, flags):
                 continue
 
             # get metric (distorted) image coordinates of the detected point,
@@ -896,12 +904,19 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # the residuals come in the order of the points that orient() used
+    used = np.array(
+        [
+            i
+            for i in range(len(ref_pts))
+            if is_used_for_orientation(i, targs, orient_par)
+        ],
+        dtype=np.int_,
+    )
+    ret = np.empty((len(used), 2))
 
-    for ix, img_pt in enumerate(targs):
+    for ix in range(len(used)):
         ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 5c8ad7e984817cac7706ae4dd3d756652654d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 43/49] fix: manual orientation points can not be read from the
 files of a project

---
 openptv_python/orientation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 0717781..5a9e744 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -723,9 +723,8 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     num_match = 0
 
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        # four point numbers per camera, whether on one line or on four
+        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
     fix, num_fix = read_calblock(calblock_filename)
@@ -748,10 +747,10 @@ def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
 def read_calblock(filename):
     """Read the calibration block file."""
     with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
+        lines = [line for line in f.readlines() if line.strip()]
+        num_fix = len(lines)
         fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
+        for i, line in enumerate(lines):
             parts = line.split()
             fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
     return fix, num_fix
-- 
2.43.0


From ae8f00a8cff70649a279d0dcfc6a599d657776f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 44/49] fix: write_targets writes more records than the count
 it stores

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index b634d54..9c0f571 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -235,7 +235,7 @@ def write_targets(
     try:
         # Convert targets to a 2D numpy array
         target_arr = np.array(
-            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
+            [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets[:num_targets]]
         ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
-- 
2.43.0


From e2447ac6459b3f40851774b4fec50bfda6dbbd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 45/49] fix: multimedia and volume parameters do not share
 lists with their callers

---
 openptv_python/parameters.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 873227c..d8568cb 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -92,19 +92,19 @@ class MultimediaPar(Parameters):
 
     def get_n2(self):
         """Return the refractive index of the second medium."""
-        return self.n2
+        return list(self.n2)
 
     def get_d(self):
         """Return the thickness of the second medium."""
-        return self.d
+        return list(self.d)
 
     def set_layers(self, refr_index: list[float], thickness: list[float]):
         """Set the layers of the medium."""
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
         else:
-            self.n2 = refr_index
-            self.d = thickness
+            self.n2 = list(refr_index)
+            self.d = list(thickness)
             self.nlay = len(refr_index)
 
     def __str__(self) -> str:
@@ -369,11 +369,11 @@ class VolumePar(Parameters):
 
     def set_z_min_lay(self, z_min_lay: list[float]) -> None:
         """Set the minimum z coordinate of the layers."""
-        self.z_min_lay = z_min_lay
+        self.z_min_lay = list(z_min_lay)
 
     def set_z_max_lay(self, z_max_lay: list[float]) -> None:
         """Set the maximum z coordinate of the layers."""
-        self.z_max_lay = z_max_lay
+        self.z_max_lay = list(z_max_lay)
 
     def set_cn(self, cn: float) -> None:
         """Set the refractive index."""
-- 
2.43.0


From d9b7300fd285ff00ae827c3c628096f1e7fd5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 46/49] fix: velocity limits of added particles applied to the
 wrong displacement

The forward tracking loop compared the limits with the reversed displacement
(current minus following position) or with the distance from the predicted
position, so that with limits that are not symmetric about zero particles were
added or rejected wrongly.
---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 2706fe3..5c01bd6 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -947,7 +947,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     in_volume = 1
 
-                diff_pos = vec_subt(X[3], X[4])
+                diff_pos = vec_subt(X[4], X[3])
                 # print(f"second diff_pos {diff_pos}")
 
                 if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
@@ -1014,7 +1014,7 @@ def trackcorr_c_loop(run_info, step):
                     ):
                         in_volume = 1
 
-                    diff_pos = vec_subt(X[2], X[3])
+                    diff_pos = vec_subt(X[3], X[1])
                     if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
                         angle, acc = angle_acc(X[1], X[2], X[3])
                         if (acc < tpar.dacc and angle < tpar.dangle) or (
-- 
2.43.0


From 81304f2499bd8caa9633fc3fd71654cb369e6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 47/49] fix: backward tracking stores the first frame over the
 second one

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 5c01bd6..fc434c2 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1330,7 +1330,7 @@ def trackback_c(run_info: TrackingRun):
     )
 
     fb.fb_next()
-    if not fb.write_frame_from_start(step):
+    if not fb.write_frame_from_start(seq_par.first):
         raise IOError("Could not write frame to disk")
 
     return nlinks
-- 
2.43.0


From d0694a8c34a35555f618cee2b29f8cdd0bb99608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 48/49] fix: forward tracking confirms the last links with a
 past frame

---
 openptv_python/track.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index fc434c2..79da73b 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1096,6 +1096,9 @@ def trackcorr_c_loop(run_info, step):
 
     if step < run_info.seq_par.last - 2:
         fb.read_frame_at_end(step + 3, False)
+    else:
+        # no frame follows the last one: do not keep a past frame in its place
+        fb.buf[-1] = Frame(fb.num_cams, fb.buf[-1].max_targets)
     # end of sequence loop
 
 
-- 
2.43.0


From 47311570a4d101c5eb3b4fb72958f49b5fbfb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:40 +0000
Subject: [PATCH 49/49] fix: merge a touching peak into one other peak only

---
 openptv_python/segmentation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/segmentation.py b/openptv_python/segmentation.py
index c169458..e855eb3 100644
--- a/openptv_python/segmentation.py
+++ b/openptv_python/segmentation.py
@@ -489,6 +489,7 @@ def peak_fit(
                 peaks[p2].xmax = peaks[i].xmax
             if peaks[i].ymax > peaks[p2].ymax:
                 peaks[p2].ymax = peaks[i].ymax
+            break  # its pixels now belong to the other target
 
     # 4.: process targets
     for i in range(n_peaks):
-- 
2.43.0

