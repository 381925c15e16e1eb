From 1c42b1b66b8366ee525f4e81459813dad73e1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 01/29] fix: balance and ghost across trees joined only by an
 edge or corner

A fully owned tree without any face neighbor was treated as isolated, and
quadrants at its unconnected faces as having an owned neighborhood, even when
tree edges or corners connect it to other trees.  Balance was incomplete or
aborted, and ghosts were missing.
---
 src/p4est.c               | 11 +++++++++++
 src/p4est_communication.c | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/p4est.c b/src/p4est.c
index bd0a058..43e2dcd 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -1448,6 +1448,17 @@ p4est_balance_ext (p4est_t * p4est, p4est_connect_type_t btype,
     for (face = 0; face < P4EST_FACES; ++face) {
       any_face = any_face || tree_contact[face];
     }
+    /* trees may also be connected exclusively by their edges and corners */
+#ifdef P4_TO_P8
+    for (edge = 0; conn->num_edges > 0 && edge < P8EST_EDGES; ++edge) {
+      any_face = any_face || conn->tree_to_edge[P8EST_EDGES * nt + edge] >= 0;
+    }
+#endif
+    for (corner = 0; conn->num_corners > 0 && corner < P4EST_CHILDREN;
+         ++corner) {
+      any_face = any_face ||
+        conn->tree_to_corner[P4EST_CHILDREN * nt + corner] >= 0;
+    }
     if (any_face) {
       tree_flags[nt] |= any_face_flag;
     }
diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index b4aa05d..7500f3b 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -854,6 +854,41 @@ p4est_comm_tree_info (p4est_t * p4est, p4est_locidx_t which_tree,
   }
 }
 
+/** Test if a quadrant touches an edge or corner of its tree that is connected
+ * to other trees, which may be the case without any face neighbor tree.
+ */
+static int
+p4est_comm_ridge_contact (p4est_connectivity_t * conn,
+                          p4est_topidx_t which_tree,
+                          const p4est_quadrant_t * q)
+{
+#ifdef P4_TO_P8
+  int                 edge;
+#endif
+  int                 corner;
+
+#ifdef P4_TO_P8
+  if (conn->num_edges > 0) {
+    for (edge = 0; edge < P8EST_EDGES; ++edge) {
+      if (conn->tree_to_edge[P8EST_EDGES * which_tree + edge] >= 0 &&
+          p8est_quadrant_touches_edge (q, edge, 1)) {
+        return 1;
+      }
+    }
+  }
+#endif
+  if (conn->num_corners > 0) {
+    for (corner = 0; corner < P4EST_CHILDREN; ++corner) {
+      if (conn->tree_to_corner[P4EST_CHILDREN * which_tree + corner] >= 0 &&
+          p4est_quadrant_touches_corner (q, corner, 1)) {
+        return 1;
+      }
+    }
+  }
+
+  return 0;
+}
+
 int
 p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
                                int full_tree[], int tree_contact[],
@@ -874,7 +909,7 @@ p4est_comm_neighborhood_owned (p4est_t * p4est, p4est_locidx_t which_tree,
           (tree_contact[4] && q->z == 0) ||
           (tree_contact[5] && q->z == P4EST_ROOT_LEN - qh) ||
 #endif
-          0)) {
+          p4est_comm_ridge_contact (p4est->connectivity, which_tree, q))) {
       return 1;
     }
   }
-- 
2.43.0


From 55f249b83c56eda0ff3d9aa3b577f32fc35c3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 02/29] fix: corner iteration left edge numbers unset next to a
 boundary face

---
 src/p4est_iterate.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/p4est_iterate.c b/src/p4est_iterate.c
index 412cc66..c4e859b 100644
--- a/src/p4est_iterate.c
+++ b/src/p4est_iterate.c
@@ -799,29 +799,27 @@ p4est_iter_init_corner (p4est_iter_corner_args_t * args,
           o = nf / P4EST_FACES;
 
           nf %= P4EST_FACES;
-          if (nnt == nt && nf == f) {
-            faces_count++;
-            continue;
-          }
-
+          if (nnt != nt || nf != f) {
 #ifndef P4_TO_P8
-          nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
+            nnc = p4est_face_corners[nf][(o == 0) ? c2 : (1 - c2)];
 #else
-          ref = p8est_face_permutation_refs[f][nf];
-          set = p8est_face_permutation_sets[ref][o];
-          nc2 = p8est_face_permutations[set][c2];
-          nnc = p8est_face_corners[nf][nc2];
+            ref = p8est_face_permutation_refs[f][nf];
+            set = p8est_face_permutation_sets[ref][o];
+            nc2 = p8est_face_permutations[set][c2];
+            nnc = p8est_face_corners[nf][nc2];
 #endif
 
-          for (k = 0; k < count; k++) {
-            if (k == i) {
-              continue;
-            }
-            cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
-            if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
-              cside2->faces[nf / 2] = faces_count;
+            for (k = 0; k < count; k++) {
+              if (k == i) {
+                continue;
+              }
+              cside2 = p4est_iter_cside_array_index_int (&(info->sides), k);
+              if (cside2->treeid == nnt && (int) cside2->corner == nnc) {
+                cside2->faces[nf / 2] = faces_count;
+              }
             }
           }
+          /* a boundary face must not skip the edge of the same index below */
           faces_count++;
         }
 #ifdef P4_TO_P8
-- 
2.43.0


From 7920bf4c52c622e3c98ea1c5a2c8cc296b15ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 03/29] fix: search_reorder ignored the subset of trees chosen
 by the callback

---
 src/p4est_search.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/p4est_search.c b/src/p4est_search.c
index 8e07b99..8d504c2 100644
--- a/src/p4est_search.c
+++ b/src/p4est_search.c
@@ -1060,11 +1060,17 @@ p4est_search_reorder (p4est_t * p4est, int skip_levels,
   rec->points = points;
   rec->skip = skip_levels;
 
+  /* the reorder callback may have chosen a subset of the local trees */
+  if (root_indices != NULL) {
+    P4EST_ASSERT (root_indices->elem_count <= (size_t) num_local_trees);
+    num_local_trees = (p4est_topidx_t) root_indices->elem_count;
+  }
+
   /* go through tree recursions in proper order */
-  for (tt = p4est->first_local_tree; tt <= p4est->last_local_tree; ++tt) {
-    rec->which_tree = root_indices != NULL ? *(p4est_topidx_t *)
-      sc_array_index (root_indices, tt - p4est->first_local_tree) +
-      p4est->first_local_tree : tt;
+  for (rit = 0; rit < num_local_trees; ++rit) {
+    tt = root_indices == NULL ? rit :
+      *(p4est_topidx_t *) sc_array_index (root_indices, (size_t) rit);
+    rec->which_tree = p4est->first_local_tree + tt;
     P4EST_ASSERT (p4est->first_local_tree <= rec->which_tree &&
                   rec->which_tree <= p4est->last_local_tree);
 
-- 
2.43.0


From ab801878803c0695b90747ccc5e91c85d3cd096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 04/29] fix: loading without data ignored the requested data
 size

---
 src/p4est.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/p4est.c b/src/p4est.c
index 43e2dcd..0f6f00f 100644
--- a/src/p4est.c
+++ b/src/p4est.c
@@ -3995,6 +3995,10 @@ p4est_load_mpi (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   if (darr != NULL) {
     sc_array_destroy (darr);
   }
+  else if (data_size > 0) {
+    /* the quadrant data is not loaded but its size is still respected */
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
@@ -4268,6 +4272,10 @@ p4est_source_ext (sc_io_source_t * src, sc_MPI_Comm mpicomm, size_t data_size,
   if (darr != NULL) {
     sc_array_destroy (darr);
   }
+  else if (data_size > 0) {
+    /* the quadrant data is not loaded but its size is still respected */
+    p4est_reset_data (p4est, data_size, NULL, user_pointer);
+  }
   P4EST_FREE (pertree);
   P4EST_FREE (gfq);
 
-- 
2.43.0


From e3336b0836e01907307e3c4c67502ce3e8e0e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 05/29] fix: validity test missed gaps at the begin and end of
 inner trees

---
 src/p4est_algorithms.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/p4est_algorithms.c b/src/p4est_algorithms.c
index 5a33c9c..3f78838 100644
--- a/src/p4est_algorithms.c
+++ b/src/p4est_algorithms.c
@@ -531,6 +531,19 @@ p4est_is_valid (p4est_t * p4est)
     goto failtest;
   }
 
+  /* check first item of global partition */
+  if (!(p4est->global_first_position[0].p.which_tree == 0 &&
+        p4est->global_first_position[0].x == 0 &&
+        p4est->global_first_position[0].y == 0
+#ifdef P4_TO_P8
+        && p4est->global_first_position[0].z == 0
+#endif
+      )) {
+    P4EST_NOTICE ("p4est invalid global start position");
+    failed = 1;
+    goto failtest;
+  }
+
   /* check last item of global partition */
   if (!(p4est->global_first_position[num_procs].p.which_tree ==
         p4est->connectivity->num_trees &&
@@ -703,8 +716,33 @@ p4est_is_valid (p4est_t * p4est)
         failed = 1;
         goto failtest;
       }
+      if (jt > first_tree &&
+          (tree->first_desc.x != 0 || tree->first_desc.y != 0 ||
+#ifdef P4_TO_P8
+           tree->first_desc.z != 0 ||
+#endif
+           0)) {
+        P4EST_NOTICE ("p4est invalid begin of tree\n");
+        failed = 1;
+        goto failtest;
+      }
+      if (jt < last_tree &&
+          (s.x + mh != P4EST_ROOT_LEN || s.y + mh != P4EST_ROOT_LEN ||
+#ifdef P4_TO_P8
+           s.z + mh != P4EST_ROOT_LEN ||
+#endif
+           0)) {
+        P4EST_NOTICE ("p4est invalid end of tree\n");
+        failed = 1;
+        goto failtest;
+      }
     }
     else {
+      if (jt >= first_tree && jt <= last_tree) {
+        P4EST_NOTICE ("p4est invalid empty local tree\n");
+        failed = 1;
+        goto failtest;
+      }
       P4EST_QUADRANT_INIT (&s);
       if (s.level != tree->first_desc.level ||
           s.level != tree->last_desc.level) {
-- 
2.43.0


From 50478e68c0c4918b741d166ed1763e303e725db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 06/29] fix: forest from points did not cover the domain when
 the first process has no points

---
 src/p4est_points.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/p4est_points.c b/src/p4est_points.c
index 1afc170..2ed0fb3 100644
--- a/src/p4est_points.c
+++ b/src/p4est_points.c
@@ -103,7 +103,7 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
                   size_t data_size, p4est_init_t init_fn, void *user_pointer)
 {
   int                 mpiret;
-  int                 num_procs, rank;
+  int                 num_procs, rank, first_proc;
   int                 i, isizet;
   size_t              lcount;
   size_t             *nmemb;
@@ -152,6 +152,16 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   SC_CHECK_MPI (mpiret);
   sc_psort (mpicomm, points, nmemb, sizeof (p4est_quadrant_t),
             p4est_quadrant_compare_piggy);
+
+  /* the first process with points covers the domain from its beginning */
+  for (first_proc = 0; first_proc < num_procs; ++first_proc) {
+    if (nmemb[first_proc] > 0) {
+      break;
+    }
+  }
+  if (first_proc == num_procs) {
+    first_proc = 0;
+  }
   P4EST_FREE (nmemb);
 #ifdef P4EST_ENABLE_DEBUG
   first_quad = points;
@@ -211,14 +221,14 @@ p4est_new_points (sc_MPI_Comm mpicomm, p4est_connectivity_t * connectivity,
   P4EST_QUADRANT_INIT (&f);
   p4est->global_first_position =
     P4EST_ALLOC_ZERO (p4est_quadrant_t, num_procs + 1);
-  if (num_points == 0) {
+  if (num_points == 0 && rank != first_proc) {
     P4EST_VERBOSE ("Empty processor");
     first_tree = p4est->first_local_tree = -1;
     first_quad = NULL;
   }
   else {
     /* we are probably not empty */
-    if (rank == 0) {
+    if (rank == first_proc) {
       first_tree = p4est->first_local_tree = 0;
       p4est_quadrant_set_morton_ext128 (&f, maxlevel, &zero);
     }
-- 
2.43.0


From 89bc30bd4b9b3e40df2579ee3e9da30a1c5a2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 07/29] fix: subcommunicator with processes added to the
 beginning broke the order of the forest

---
 src/p4est_communication.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/p4est_communication.c b/src/p4est_communication.c
index 7500f3b..d1048b0 100644
--- a/src/p4est_communication.c
+++ b/src/p4est_communication.c
@@ -199,7 +199,16 @@ p4est_comm_parallel_env_reduce_ext (p4est_t ** p4est_supercomm,
 
     /* create union with optional group */
     if (add_to_beginning) {
-      mpiret = sc_MPI_Group_union (group_add, subgroup, &group_union);
+      sc_MPI_Group        group_empty;
+
+      /* non-empty processes must remain in the order of their quadrants */
+      mpiret = sc_MPI_Group_difference (group_add, subgroup, &group_empty);
+      SC_CHECK_MPI (mpiret);
+      mpiret = sc_MPI_Group_union (group_empty, subgroup, &group_union);
+      SC_CHECK_MPI (mpiret);
+      if (group_empty != sc_MPI_GROUP_EMPTY) {
+        mpiret = sc_MPI_Group_free (&group_empty);
+      }
     }
     else {
       mpiret = sc_MPI_Group_union (subgroup, group_add, &group_union);
-- 
2.43.0


From c4cea5d496df008b0e57076a173d13b6c6e69f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 08/29] fix: successor test accepted quadrants separated by a
 hole

---
 src/p4est_bits.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index aa53a5c..5cb2d2e 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1013,6 +1013,15 @@ p4est_quadrant_is_next (const p4est_quadrant_t * q,
     minlevel = (int) r->level;
   }
   else {
+    /* check if r is the first descendant down from the common level */
+    mask = P4EST_QUADRANT_LEN (q->level) - P4EST_QUADRANT_LEN (r->level);
+    if ((r->x & mask) != 0 || (r->y & mask) != 0 ||
+#ifdef P4_TO_P8
+        (r->z & mask) != 0 ||
+#endif
+        0) {
+      return 0;
+    }
     minlevel = (int) q->level;
   }
   p4est_quadrant_linear_id_ext128 (q, minlevel, &i1);
@@ -1043,6 +1052,12 @@ p4est_quadrant_is_next_D (const p4est_quadrant_t * q,
     }
     p4est_quadrant_parent (&a, &a);
   }
+  while (b.level > a.level) {
+    if (p4est_quadrant_child_id (&b) != 0) {
+      return 0;
+    }
+    p4est_quadrant_parent (&b, &b);
+  }
   p4est_quadrant_linear_id_ext128 (&a, (int) a.level, &i1);
   p4est_quadrant_linear_id_ext128 (&b, (int) a.level, &i2);
 
-- 
2.43.0


From 3b5d487372cb7395705ee25faa6a545b20610456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 09/29] fix: quadrants past the end of the tree were taken to
 be inside

---
 src/p4est_bits.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 5cb2d2e..9de370e 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1111,12 +1111,8 @@ p4est_quadrant_is_inside_tree (p4est_tree_t * tree,
     return 0;
 
   /* check if the end of q is not after the last tree quadrant */
-  /* tree->last_desc is an upper right corner quadrant by construction.
-   * It is ok to compare with q. */
-#if 0
   p4est_quadrant_last_descendant (q, &desc, P4EST_QMAXLEVEL);
-#endif
-  if (p4est_quadrant_compare (&tree->last_desc, q) < 0)
+  if (p4est_quadrant_compare (&tree->last_desc, &desc) < 0)
     return 0;
 
   return 1;
-- 
2.43.0


From f1550d7342cce51a1b35eca6d801a8e95a85f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 10/29] fix: quadrant without face neighbor was changed when
 passed as the result

---
 src/p4est_bits.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 9de370e..3a7cc5b 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -1364,6 +1364,7 @@ p4est_quadrant_face_neighbor_extra (const p4est_quadrant_t * q,
                                     p4est_quadrant_t * r, int *nface,
                                     p4est_connectivity_t * conn)
 {
+  const p4est_quadrant_t orig = *q;     /* r may be identical to q */
   p4est_quadrant_t    temp;
   int                 transform[9];
   p4est_topidx_t      flag;
@@ -1379,9 +1380,7 @@ p4est_quadrant_face_neighbor_extra (const p4est_quadrant_t * q,
   temp = *r;
   flag = p4est_find_face_transform (conn, t, face, transform);
   if (flag == -1) {
-    if (r != q) {
-      *r = *q;
-    }
+    *r = orig;
     if (nface != NULL) {
       *nface = -1;
     }
-- 
2.43.0


From 7af47d722a682163a216de089d48fa872a6d0850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 11/29] fix: neighbor transform of a level zero quadrant
 overflowed next to the tree

---
 src/p4est_bits.c | 66 ++++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/src/p4est_bits.c b/src/p4est_bits.c
index 3a7cc5b..a8459dc 100644
--- a/src/p4est_bits.c
+++ b/src/p4est_bits.c
@@ -2651,37 +2651,26 @@ p4est_neighbor_transform_quadrant (const p4est_neighbor_transform_t * nt,
                                    const p4est_quadrant_t * self_quad,
                                    p4est_quadrant_t * neigh_quad)
 {
-  p4est_qcoord_t      self_from_origin[2][P4EST_DIM];
-  p4est_qcoord_t      neigh_from_origin[2][P4EST_DIM];
+  p4est_qcoord_t      self_from_origin[P4EST_DIM];
+  p4est_qcoord_t      neigh_from_origin[P4EST_DIM];
   p4est_qcoord_t      h = P4EST_QUADRANT_LEN (self_quad->level);
 
-  self_from_origin[0][0] = self_quad->x - nt->origin_self[0];
-  self_from_origin[0][1] = self_quad->y - nt->origin_self[1];
+  self_from_origin[0] = self_quad->x - nt->origin_self[0];
+  self_from_origin[1] = self_quad->y - nt->origin_self[1];
 #ifdef P4_TO_P8
-  self_from_origin[0][2] = self_quad->z - nt->origin_self[2];
+  self_from_origin[2] = self_quad->z - nt->origin_self[2];
 #endif
 
+  /* subtract instead of adding the length to stay within qcoord range */
   for (int d = 0; d < P4EST_DIM; d++) {
-    self_from_origin[1][d] = self_from_origin[0][d] + h;
+    neigh_from_origin[d] = nt->sign[d] > 0 ?
+      self_from_origin[nt->perm[d]] : -self_from_origin[nt->perm[d]] - h;
   }
 
-  for (int i = 0; i < 2; i++) {
-    for (int d = 0; d < P4EST_DIM; d++) {
-      neigh_from_origin[i][d] =
-        nt->sign[d] * self_from_origin[i][nt->perm[d]];
-    }
-  }
-
-  neigh_quad->x =
-    SC_MIN (neigh_from_origin[0][0],
-            neigh_from_origin[1][0]) + nt->origin_neighbor[0];
-  neigh_quad->y =
-    SC_MIN (neigh_from_origin[0][1],
-            neigh_from_origin[1][1]) + nt->origin_neighbor[1];
+  neigh_quad->x = neigh_from_origin[0] + nt->origin_neighbor[0];
+  neigh_quad->y = neigh_from_origin[1] + nt->origin_neighbor[1];
 #ifdef P4_TO_P8
-  neigh_quad->z =
-    SC_MIN (neigh_from_origin[0][2],
-            neigh_from_origin[1][2]) + nt->origin_neighbor[2];
+  neigh_quad->z = neigh_from_origin[2] + nt->origin_neighbor[2];
 #endif
   neigh_quad->level = self_quad->level;
 }
@@ -2693,37 +2682,26 @@ p4est_neighbor_transform_quadrant_reverse (const p4est_neighbor_transform_t *
                                            neigh_quad,
                                            p4est_quadrant_t * self_quad)
 {
-  p4est_qcoord_t      neigh_from_origin[2][P4EST_DIM];
-  p4est_qcoord_t      self_from_origin[2][P4EST_DIM];
+  p4est_qcoord_t      neigh_from_origin[P4EST_DIM];
+  p4est_qcoord_t      self_from_origin[P4EST_DIM];
   p4est_qcoord_t      h = P4EST_QUADRANT_LEN (neigh_quad->level);
 
-  neigh_from_origin[0][0] = neigh_quad->x - nt->origin_neighbor[0];
-  neigh_from_origin[0][1] = neigh_quad->y - nt->origin_neighbor[1];
+  neigh_from_origin[0] = neigh_quad->x - nt->origin_neighbor[0];
+  neigh_from_origin[1] = neigh_quad->y - nt->origin_neighbor[1];
 #ifdef P4_TO_P8
-  neigh_from_origin[0][2] = neigh_quad->z - nt->origin_neighbor[2];
+  neigh_from_origin[2] = neigh_quad->z - nt->origin_neighbor[2];
 #endif
 
+  /* subtract instead of adding the length to stay within qcoord range */
   for (int d = 0; d < P4EST_DIM; d++) {
-    neigh_from_origin[1][d] = neigh_from_origin[0][d] + h;
-  }
-
-  for (int i = 0; i < 2; i++) {
-    for (int d = 0; d < P4EST_DIM; d++) {
-      self_from_origin[i][nt->perm[d]] =
-        nt->sign[d] * neigh_from_origin[i][d];
-    }
+    self_from_origin[nt->perm[d]] = nt->sign[d] > 0 ?
+      neigh_from_origin[d] : -neigh_from_origin[d] - h;
   }
 
-  self_quad->x =
-    SC_MIN (self_from_origin[0][0],
-            self_from_origin[1][0]) + nt->origin_self[0];
-  self_quad->y =
-    SC_MIN (self_from_origin[0][1],
-            self_from_origin[1][1]) + nt->origin_self[1];
+  self_quad->x = self_from_origin[0] + nt->origin_self[0];
+  self_quad->y = self_from_origin[1] + nt->origin_self[1];
 #ifdef P4_TO_P8
-  self_quad->z =
-    SC_MIN (self_from_origin[0][2],
-            self_from_origin[1][2]) + nt->origin_self[2];
+  self_quad->z = self_from_origin[2] + nt->origin_self[2];
 #endif
   self_quad->level = neigh_quad->level;
 }
-- 
2.43.0


From d94a3a45e4f0f7828953c31439e7e04d9c6b3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 12/29] fix: permuting a connectivity without vertices crashed

---
 src/p4est_connectivity.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index b7646b6..95a584c 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4213,9 +4213,11 @@ p4est_connectivity_permute (p4est_connectivity_t * conn, sc_array_t * inperm,
   /* now we reorder the various tables via in-place permutation */
 
   /* tree_to_vertex */
-  sc_array_init_data (&array_view, conn->tree_to_vertex,
-                      P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
-  sc_array_permute (&array_view, permarray, 1);
+  if (conn->tree_to_vertex != NULL) {
+    sc_array_init_data (&array_view, conn->tree_to_vertex,
+                        P4EST_CHILDREN * sizeof (p4est_topidx_t), ntrees);
+    sc_array_permute (&array_view, permarray, 1);
+  }
 
   /* tree_to_tree */
   sc_array_init_data (&array_view, conn->tree_to_tree,
-- 
2.43.0


From 18426267c3b08fa19bd79b30bf92ce38ee5714fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 13/29] fix: completing a connectivity kept periodicity that is
 not inherent in the vertices

---
 src/p4est_connectivity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 95a584c..6fbfbc7 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -3806,6 +3806,11 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
         fi->faces[0] = (int8_t) face;
         fi->trees[1] = -1;
         fi->faces[1] = -1;
+
+        /* unless a second face is found this one is on the boundary */
+        tt = P4EST_FACES * treeid + face;
+        conn->tree_to_tree[tt] = treeid;
+        conn->tree_to_face[tt] = (int8_t) face;
       }
       else {
         /* found existing entry from the first face */
@@ -3910,7 +3915,7 @@ p4est_connectivity_complete (p4est_connectivity_t * conn)
     ttv += P4EST_CHILDREN;
   }
 
-  /* single faces are on the boundary and need not be changed */
+  /* single faces are on the boundary */
   sc_hash_array_destroy (face_ha);
 
   /* complete edge identification */
-- 
2.43.0


From 2bfb2f5356943a4497a74c746d313c570eff031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 14/29] fix: joining faces gave edge groups of wrong
 orientation

---
 src/p4est_connectivity.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/p4est_connectivity.c b/src/p4est_connectivity.c
index 6fbfbc7..40440e0 100644
--- a/src/p4est_connectivity.c
+++ b/src/p4est_connectivity.c
@@ -4805,7 +4805,7 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
                                p4est_topidx_t tree_right,
                                int edge_left, int edge_right, int orientation)
 {
-  int                 i, c_left, c_right;
+  int                 i, c_left, c_right, toggle;
   p4est_topidx_t      e, e0, e1, swap;
   p4est_topidx_t      startt, endt, n1, it, end0;
   p4est_topidx_t     *swapspace;
@@ -4854,6 +4854,23 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
      * of work for nothing */
     return;
   }
+
+  /* the edges may be stored with either orientation in their groups */
+  toggle = orientation ? 1 : 0;
+  for (it = conn->ett_offset[e0]; it < conn->ett_offset[e0 + 1]; it++) {
+    if (conn->edge_to_tree[it] == tree_left &&
+        (int) conn->edge_to_edge[it] % P8EST_EDGES == edge_left) {
+      toggle ^= (int) conn->edge_to_edge[it] / P8EST_EDGES;
+      break;
+    }
+  }
+  for (it = conn->ett_offset[e1]; it < conn->ett_offset[e1 + 1]; it++) {
+    if (conn->edge_to_tree[it] == tree_right &&
+        (int) conn->edge_to_edge[it] % P8EST_EDGES == edge_right) {
+      toggle ^= (int) conn->edge_to_edge[it] / P8EST_EDGES;
+      break;
+    }
+  }
   if (e1 < e0) {
     swap = e0;
     e0 = e1;
@@ -4873,9 +4890,9 @@ p8est_connectivity_join_edges (p8est_connectivity_t * conn,
 
     nte %= P8EST_EDGES;         /* okay, now nte is nt's numbering for e1 */
     conn->tree_to_edge[P8EST_EDGES * nt + nte] = e0;    /* e1->e0 */
-    /* if edge_left and edge_right have opposite orientations, then the
+    /* if the two groups of edges have opposite orientations, then the
      * orientation information in edge_to_edge has to be toggled */
-    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ orientation) + nte;
+    conn->edge_to_edge[it] = P8EST_EDGES * (o ^ toggle) + nte;
   }
 
   /* we now have to move the entries in edge_to_tree and edge_to_edge around */
-- 
2.43.0


From 9954b4e175542be7480e969c6f31ced100bc1520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 15/29] fix: wrap left the coarsening counters of a forest
 without user data uninitialized

When a forest of data size zero was handed to the wrap, resetting the data
did not touch p.user_int, so the delay of coarsening began with arbitrary
values.
---
 src/p4est_wrap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 506e1ba..6384101 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -258,6 +258,10 @@ p4est_wrap_new_p4est_params (p4est_t * p4est, p4est_wrap_params_t * params)
   /* reset the data size since changing the p4est_wrap will affect p.user_int */
   p4est_reset_data (pp->p4est, 0, NULL, NULL);
 
+  /* the data may have been of size 0 already: initialize p.user_int always */
+  p4est_wrap_set_coarsen_delay (pp, pp->params.coarsen_delay,
+                                pp->params.coarsen_affect);
+
   pp->p4est->user_pointer = pp;
 
   return pp;
-- 
2.43.0


From 2d26363eebb37bf37605b4aee26aa9a78ccc7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 16/29] fix: wrap partition reported an unchanged window for a
 process without old leaves

If a process was empty before or after the partition, the first index could
be nonzero even though no quadrant stayed.
---
 src/p4est_wrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p4est_wrap.c b/src/p4est_wrap.c
index 6384101..a57cb31 100644
--- a/src/p4est_wrap.c
+++ b/src/p4est_wrap.c
@@ -880,8 +880,8 @@ p4est_wrap_partition_unchanged (p4est_gloidx_t pre_me,
   uf = ul = uof = 0;
 
   /* check whether any quadrants stay at all, and which ones */
-  if (pre_me < post_next && post_me < pre_next) {
-    unext = SC_MIN (pre_next, post_next);
+  unext = SC_MIN (pre_next, post_next);
+  if (pre_me < unext && post_me < unext) {
     if (pre_me <= post_me) {
       uof = (p4est_locidx_t) (post_me - pre_me);
       ul = (p4est_locidx_t) (unext - post_me);
-- 
2.43.0


From 0cf1f08a1c89e06de012fa355cea23b19b85a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 17/29] fix: p6est_copy without data shared the data pool of
 the input

---
 src/p6est.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/p6est.c b/src/p6est.c
index 36af898..8325bc0 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -608,6 +608,7 @@ p6est_copy_ext (p6est_t * input, int copy_data, int duplicate_comm)
     p6est->user_data_pool = sc_mempool_new (p6est->data_size);
   }
   else {
+    p6est->user_data_pool = NULL;
     p6est->data_size = 0;
   }
   p6est->layer_pool = p2est_quadrant_mempool_new ();
-- 
2.43.0


From 366d5f3e33187e1329b77e68bd465e21d1a80a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 18/29] fix: p6est_load did not allocate layer data unless it
 was loaded

---
 src/p6est.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 8325bc0..5ffecbb 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1048,9 +1048,12 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
       P2EST_QUADRANT_INIT (layer);
       layer->z = loadlayer[0];
       layer->level = (int8_t) loadlayer[1];
-      if (load_data) {
+      layer->p.user_data = NULL;
+      if (data_size > 0) {
         layer->p.user_data = sc_mempool_alloc (p6est->user_data_pool);
-        memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
+        if (load_data) {
+          memcpy (layer->p.user_data, &loadlayer[2], save_data_size);
+        }
       }
     }
     sc_array_destroy (loaddata);
-- 
2.43.0


From c125e0fc38549d52d60b631484e14ad8981a6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 19/29] fix: p6est_load left the vertical extent of the forest
 uninitialized

---
 src/p6est.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 5ffecbb..876b0d7 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -934,7 +934,8 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   size_t              save_data_size, comb_size;
   uint64_t            u64a;
   p4est_gloidx_t     *gfl;
-  int                 rank;
+  p4est_qcoord_t      my_root_len;
+  int                 rank, mpiret;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_load %s\n", filename);
   p4est_log_indent_push ();
@@ -1062,6 +1063,18 @@ p6est_load_ext (const char *filename, sc_MPI_Comm mpicomm, size_t data_size,
   retval = sc_io_source_destroy (src);
   SC_CHECK_ABORT (!retval, "destroy source");
 
+  /* the vertical extent is where the layers of any column end */
+  my_root_len = 0;
+  if (nlayers) {
+    p2est_quadrant_t   *layer =
+      p2est_quadrant_array_index (p6est->layers, (size_t) nlayers - 1);
+
+    my_root_len = layer->z + P4EST_QUADRANT_LEN (layer->level);
+  }
+  mpiret = sc_MPI_Allreduce (&my_root_len, &p6est->root_len, 1,
+                             P4EST_MPI_QCOORD, sc_MPI_MAX, mpicomm);
+  SC_CHECK_MPI (mpiret);
+
   p4est_log_indent_pop ();
   P4EST_GLOBAL_PRODUCTIONF ("Done p6est_load %s\n", filename);
 
-- 
2.43.0


From 3ddabcc155ff75c6691babca21645e03b7ebb404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 20/29] fix: p6est conversions between column and layer counts
 overran their arrays

---
 src/p6est.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 876b0d7..35eb4e3 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2200,8 +2200,8 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2240,7 +2240,7 @@ p6est_partition_correct (p6est_t * p6est, p4est_locidx_t * num_layers_in_proc)
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2267,8 +2267,8 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   p4est_gloidx_t      my_end = p6est->global_first_layer[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->columns->global_num_quadrants;
 
@@ -2310,7 +2310,7 @@ p6est_partition_to_p4est_partition (p6est_t * p6est,
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
@@ -2339,8 +2339,8 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     p6est->columns->global_first_quadrant[mpirank + 1];
   p4est_gloidx_t      offset = 0;
 
-  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize);
-  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize);
+  new_offsets = P4EST_ALLOC_ZERO (p4est_gloidx_t, mpisize + 1);
+  new_offsets_recv = P4EST_ALLOC (p4est_gloidx_t, mpisize + 1);
 
   new_offsets[mpisize] = p6est->global_first_layer[mpisize];
 
@@ -2374,18 +2374,17 @@ p4est_partition_to_p6est_partition (p6est_t * p6est,
     }
     if (offset == p6est->columns->global_num_quadrants) {
       new_offsets[p] = p6est->global_first_layer[mpisize];
-      break;
     }
     offset += num_columns_in_proc[p];
   }
 
   mpiret =
-    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize,
+    sc_MPI_Allreduce (new_offsets, new_offsets_recv, mpisize + 1,
                       P4EST_MPI_GLOIDX, sc_MPI_MAX, p6est->mpicomm);
   SC_CHECK_MPI (mpiret);
 
   for (p = 0; p < mpisize; p++) {
-    num_columns_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
+    num_layers_in_proc[p] = new_offsets_recv[p + 1] - new_offsets_recv[p];
   }
 
   P4EST_FREE (new_offsets);
-- 
2.43.0


From a0a74c436c862794ebf1ba9bdcb944ad891add09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 21/29] fix: p6est_coarsen_columns gave the new layer the data
 of an old one

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 35eb4e3..6fb6ef4 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1626,13 +1626,13 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
     }
     p = p2est_quadrant_array_push (work_array);
     *p = *q[0];
-    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 1; j < num_outgoing; j++) {
       P4EST_ASSERT (q[j]->z == p->z);
       if (q[j]->level < p->level) {
         *p = *q[j];
       }
     }
+    p6est_layer_init_data (p6est, which_tree, incoming[0], p, init_fn);
     for (j = 0; j < num_outgoing; j++) {
       if (q[j]->level > p->level) {
         P4EST_ASSERT (p2est_quadrant_is_ancestor (p, q[j]));
-- 
2.43.0


From 47a3b3016ba3f06ce40f949d15890d9ad20acbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 22/29] fix: p6est_refine_layers without a level bound exceeded
 the maximum level

---
 src/p6est.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 6fb6ef4..804910b 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1301,6 +1301,8 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
   int                 any_change;
   int                 level;
   int                 stop_recurse;
+  const int           maxlevel =
+    allowed_level < 0 ? P4EST_QMAXLEVEL : allowed_level;
 
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_refine_layers with %lld total layers"
                             " in %lld total columns, allowed level %d\n",
@@ -1326,7 +1328,7 @@ p6est_refine_layers_ext (p6est_t * p6est, int refine_recursive,
         parent = q;
         for (;;) {
           if (!stop_recurse && refine_fn (p6est, jt, col, parent) &&
-              (allowed_level < 0 || (int) parent->level < allowed_level)) {
+              (int) parent->level < maxlevel) {
             level++;
             any_change = 1;
             c[0] = *parent;
-- 
2.43.0


From 7c39be6153a0df074099b44d6687fd758b51d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:08 +0000
Subject: [PATCH 23/29] fix: p6est_coarsen_layers overran its stack for layers
 of the maximum level

---
 src/p6est.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est.c b/src/p6est.c
index 804910b..8bcc520 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1459,7 +1459,7 @@ p6est_coarsen_all_layers (p6est_t * p6est, p4est_topidx_t which_tree,
                           p6est_coarsen_layer_t coarsen_fn,
                           p6est_init_t init_fn, p6est_replace_t replace_fn)
 {
-  p2est_quadrant_t    prevq[P4EST_QMAXLEVEL];
+  p2est_quadrant_t    prevq[P4EST_MAXLEVEL];
   size_t              old_count = descendants->elem_count;
   size_t              zz, new_count = 0;
   p2est_quadrant_t   *q, *r, a, s, *sib[2];
-- 
2.43.0


From 0015b47ce5116165ab7a8de62b263dce53e70fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 24/29] fix: p6est creation shifted by a negative count for
 small vertical levels

---
 src/p6est.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index 8bcc520..a73f679 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -399,10 +399,13 @@ p6est_new_ext (sc_MPI_Comm mpicomm, p6est_connectivity_t * connectivity,
   p6est_init_data_t   init_data;
   int                 mpiret, num_procs, rank;
   int                 log_zroot = SC_LOG2_32 (num_zroot - 1) + 1;
-  int                 quadpercol =
-    (1 << (min_zlevel - log_zroot)) * num_zroot;
+  int                 quadpercol;
   int                 i;
 
+  /* the root layers are the coarsest possible */
+  min_zlevel = SC_MAX (min_zlevel, log_zroot);
+  quadpercol = (1 << (min_zlevel - log_zroot)) * num_zroot;
+
   P4EST_GLOBAL_PRODUCTIONF
     ("Into p6est_new with min layers %lld z-level %d\n",
      (long long) min_quadrants, SC_MAX (min_zlevel, 0));
@@ -490,9 +493,12 @@ p6est_new_from_p4est (p4est_t * p4est, double *top_vertices, double height[3],
   sc_mempool_t       *user_data_pool;
   p6est_init_data_t   init_data;
   int                 num_procs;
-  int                 quadpercol = (1 << min_zlevel);
+  int                 quadpercol;
   int                 i;
 
+  min_zlevel = SC_MAX (min_zlevel, 0);
+  quadpercol = (1 << min_zlevel);
+
   P4EST_GLOBAL_PRODUCTIONF
     ("Into p6est_new_from_p4est with z-level %d\n", SC_MAX (min_zlevel, 0));
   p4est_log_indent_push ();
-- 
2.43.0


From 0b17b20ec41791fcba8a4c5aa02a3b657b810708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:36 +0000
Subject: [PATCH 25/29] fix: p6est_balance_ext callbacks did not see the user
 pointer of the forest

---
 src/p6est.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index a73f679..a710b12 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -2456,12 +2456,58 @@ p6est_partition (p6est_t * p6est, p6est_weight_t weight_fn)
   return p6est_partition_ext (p6est, 0, weight_fn);
 }
 
+typedef struct p6est_balance_diff
+{
+  int                 max_diff;
+  int                 min_diff;
+  p6est_init_t        init_fn;
+  p6est_replace_t     replace_fn;
+  void               *user_pointer;
+}
+p6est_balance_diff_t;
+
+static void
+p6est_balance_diff_init (p6est_t * p6est, p4est_topidx_t which_tree,
+                         p4est_quadrant_t * column, p2est_quadrant_t * layer)
+{
+  p6est_balance_diff_t *diff = (p6est_balance_diff_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in */
+  p6est->user_pointer = diff->user_pointer;
+  diff->init_fn (p6est, which_tree, column, layer);
+
+  /* sneak the user pointer out */
+  p6est->user_pointer = (void *) diff;
+}
+
+static void
+p6est_balance_diff_replace (p6est_t * p6est, p4est_topidx_t which_tree,
+                            int num_outcolumns, int num_outlayers,
+                            p4est_quadrant_t * outcolumns[],
+                            p2est_quadrant_t * outlayers[],
+                            int num_incolumns, int num_inlayers,
+                            p4est_quadrant_t * incolumns[],
+                            p2est_quadrant_t * inlayers[])
+{
+  p6est_balance_diff_t *diff = (p6est_balance_diff_t *) p6est->user_pointer;
+
+  /* sneak the user pointer in */
+  p6est->user_pointer = diff->user_pointer;
+  diff->replace_fn (p6est, which_tree, num_outcolumns, num_outlayers,
+                    outcolumns, outlayers, num_incolumns, num_inlayers,
+                    incolumns, inlayers);
+
+  /* sneak the user pointer out */
+  p6est->user_pointer = (void *) diff;
+}
+
 static int
 p6est_column_refine_thin_layer (p6est_t * p6est,
                                 p4est_topidx_t which_tree,
                                 p4est_quadrant_t * column)
 {
-  int                 max_diff = *((int *) p6est->user_pointer);
+  int                 max_diff =
+    ((p6est_balance_diff_t *) p6est->user_pointer)->max_diff;
   int8_t              horz_level = column->level;
   size_t              first, last, zz;
   sc_array_t         *layers = p6est->layers;
@@ -2486,7 +2532,8 @@ p6est_layer_refine_thick_layer (p6est_t * p6est,
                                 p4est_quadrant_t * column,
                                 p2est_quadrant_t * layer)
 {
-  int                 min_diff = *((int *) p6est->user_pointer);
+  int                 min_diff =
+    ((p6est_balance_diff_t *) p6est->user_pointer)->min_diff;
   int8_t              horz_level = column->level;
   int8_t              vert_level = layer->level;
 
@@ -2504,11 +2551,18 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 {
   p4est_connect_type_t hbtype;
   p6est_refine_col_data_t refine_col;
+  p6est_balance_diff_t diff;
   void               *orig_user_pointer = p6est->user_pointer;
   p6est_profile_t    *profile;
   int                 any_change;
   int                 niter;
 
+  diff.max_diff = max_diff;
+  diff.min_diff = min_diff;
+  diff.init_fn = init_fn;
+  diff.replace_fn = replace_fn;
+  diff.user_pointer = orig_user_pointer;
+
   P4EST_GLOBAL_PRODUCTIONF ("Into p6est_balance with %lld total layers"
                             " in %lld total columns\n", (long long)
                             p6est->global_first_layer[p6est->mpisize],
@@ -2523,9 +2577,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing maximum layer width:height ratio 2^%d:1\n", print_max_diff);
-    p6est->user_pointer = (void *) &max_diff;
+    p6est->user_pointer = (void *) &diff;
     p6est_refine_columns_ext (p6est, 1, -1, p6est_column_refine_thin_layer,
-                              init_fn, replace_fn);
+                              init_fn != NULL ?
+                              p6est_balance_diff_init : NULL,
+                              replace_fn != NULL ?
+                              p6est_balance_diff_replace : NULL);
     p6est->user_pointer = orig_user_pointer;
   }
 
@@ -2556,9 +2613,12 @@ p6est_balance_ext (p6est_t * p6est, p8est_connect_type_t btype,
 
     P4EST_GLOBAL_PRODUCTIONF
       ("Enforcing minimum layer width:height ratio 2^%d:1\n", print_min_diff);
-    p6est->user_pointer = (void *) &min_diff;
+    p6est->user_pointer = (void *) &diff;
     p6est_refine_layers_ext (p6est, 1, -1, p6est_layer_refine_thick_layer,
-                             init_fn, replace_fn);
+                             init_fn != NULL ?
+                             p6est_balance_diff_init : NULL,
+                             replace_fn != NULL ?
+                             p6est_balance_diff_replace : NULL);
     p6est->user_pointer = orig_user_pointer;
   }
 
-- 
2.43.0


From efa277a12ddc509d0cf8164915ce4f20733b2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 26/29] fix: p6est_coarsen_columns announced one outgoing layer
 instead of four

---
 src/p6est.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/p6est.c b/src/p6est.c
index a710b12..b5dc9be 100644
--- a/src/p6est.c
+++ b/src/p6est.c
@@ -1668,8 +1668,8 @@ p6est_replace_column_join (p4est_t * p4est, p4est_topidx_t which_tree,
       }
     }
     if (replace_fn != NULL) {
-      replace_fn (p6est, which_tree, P4EST_CHILDREN, 1, outgoing, q, 1, 1,
-                  incoming, &p);
+      replace_fn (p6est, which_tree, P4EST_CHILDREN, P4EST_CHILDREN,
+                  outgoing, q, 1, 1, incoming, &p);
     }
     for (j = 0; j < num_outgoing; j++) {
       p6est_layer_free_data (p6est, q[j]);
-- 
2.43.0


From 016f32ac3c0064dffde99d6e35807badaef1c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 27/29] fix: p6est_balance over edges and corners left vertical
 diagonals unbalanced

---
 src/p6est_profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p6est_profile.c b/src/p6est_profile.c
index d84adfc..4274cde 100644
--- a/src/p6est_profile.c
+++ b/src/p6est_profile.c
@@ -277,7 +277,7 @@ p6est_profile_balance_full_one_pass (sc_array_t * read, sc_array_t * write,
         else {
           nextl = -1;
         }
-        if (n >= SC_MAX (nextl, prevl) - 1) {
+        if (n >= SC_MAX (nextl, prevl)) {
           zy++;
           n--;
         }
-- 
2.43.0


From 6c494da33237a4effd4d72ffc8d376b1f342d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 28/29] fix: p6est_ghost_new left the mirror tree offsets
 without mirrors uninitialized

They are only computed when the front layers add mirrors.
---
 src/p6est_ghost.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p6est_ghost.c b/src/p6est_ghost.c
index 323b3d1..cfaf2d4 100644
--- a/src/p6est_ghost.c
+++ b/src/p6est_ghost.c
@@ -504,7 +504,8 @@ p6est_ghost_new (p6est_t * p6est, p4est_connect_type_t btype)
   ghost->tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
   ghost->proc_offsets = P4EST_ALLOC (int, mpisize + 1);
   ghost->mirror_proc_front_offsets = P4EST_ALLOC (int, mpisize + 1);
-  ghost->mirror_tree_offsets = P4EST_ALLOC (p4est_locidx_t, num_trees + 1);
+  ghost->mirror_tree_offsets =
+    P4EST_ALLOC_ZERO (p4est_locidx_t, num_trees + 1);
   ghost->mirror_proc_fronts = NULL;     /* these three are set in p6est_ghost_send_front_layers */
   ghost->mirror_proc_offsets = NULL;
   ghost->mirror_proc_mirrors = NULL;
-- 
2.43.0


From afa2b3ef4faa7c2200511bc0ee0ef443113cf6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:15 +0000
Subject: [PATCH 29/29] fix: p8est_tets_read_ele accepted a node number one
 beyond the last node

---
 src/p8est_tets_hexes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p8est_tets_hexes.c b/src/p8est_tets_hexes.c
index b5c1081..e00317e 100644
--- a/src/p8est_tets_hexes.c
+++ b/src/p8est_tets_hexes.c
@@ -164,7 +164,7 @@ p8est_tets_read_ele (const char *elefilename, p4est_topidx_t num_nodes,
   if (attributes != NULL) {
     *attributes = NULL;
   }
-  lmax_nodes = (num_nodes >= 0 ? (long) num_nodes : P4EST_TOPIDX_MAX);
+  lmax_nodes = (num_nodes >= 0 ? (long) num_nodes - 1 : P4EST_TOPIDX_MAX);
 
   /* open ele file */
   elefile = fopen (elefilename, "rb");
-- 
2.43.0

