From b2d1c9faca1c51043edcc8b833d0932980bd7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:40 +0000
Subject: [PATCH 01/57] fix: plc_resize_colorbuf leaks the zero-length buffer
 made by plc_new

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..7a3bbf5 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2121,6 +2121,7 @@ void plc_resize_colorbuf(plCurve *L,const int cp, const int cc)
     if (L->cp[cp].cc == 0) { /* There is no existing data, and we are adding some. */
 
       L->cp[cp].cc = cc;
+      free(L->cp[cp].clr); /* plc_new allocates a (zero-length) buffer even when cc == 0 */
       L->cp[cp].clr = calloc(sizeof(plc_color),cc);
       assert(L->cp[cp].clr != NULL);
 
-- 
2.43.0


From d6dd62e445d78f682f51e13531490645d60681ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:09 +0000
Subject: [PATCH 02/57] fix: plc_dihedral_angle dereferences ok even when the
 caller passes NULL

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 5b8e18f..552cb99 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -418,10 +418,9 @@ double plc_dihedral_angle(plc_vector A, plc_vector B, plc_vector C, plc_vector D
   /* With these three vectors, we should be able to compute the dihedral. */
   /* If we got this far, we'll get a result. */
 
-  *ok = true;
-
-  double theta = plc_angle(normABC,normACD,ok);
-  if (!(*ok)) { return 0; } 
+  double theta = plc_angle(normABC,normACD,&local_ok);
+  if (!local_ok) { if (ok != NULL) { *ok = false; } return 0; }
+  if (ok != NULL) { *ok = true; }
 
   /* We have the angle. The question is how the angle is oriented. */
 
-- 
2.43.0


From dee989e97fe8cb95b5f82ae970e40ec66ddb70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:31 +0000
Subject: [PATCH 03/57] fix: plc_rotate is not a rotation when the axis is not
 a unit vector

plc_rotate_vect and plc_rotation_matrix normalise their axis; plc_rotate
split the vertices along the axis as given, so that an axis of any length
other than 1 distorted the curve (and disagreed with the transformed
symmetry group).
---
 src/plCurve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 7a3bbf5..e5eab9e 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2538,6 +2538,10 @@ void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
 {
   int vt,cp;
+  bool axis_ok;
+
+  axis = plc_normalize_vect(axis,&axis_ok);
+  if (!axis_ok) { return; } /* Can't rotate around a zero-length axis! */
 
   if (link->G != NULL) {
 
-- 
2.43.0


From c82870e4f44d9cb180ae906ac820289d696e0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:31 +0000
Subject: [PATCH 04/57] fix: plc_rotate leaves the constraints of the curve
 behind

As plc_scale and plc_translate do, carry the constraints along (see the
FIXME), so that a curve which meets its constraints still does.
---
 src/plCurve.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index e5eab9e..6fd0565 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2534,7 +2534,7 @@ void plc_pfm(plCurve *link, int cp, int vt0, int vt1, double angle)
 void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
 /* Rotate the link around a given axis. The tricky part is that we must transform the 
-   symmetry group accordingly. FIXME: We need to transform constraints, too! */
+   symmetry group and the constraints accordingly. */
 
 {
   int vt,cp;
@@ -2606,6 +2606,18 @@ void plc_rotate(plCurve *link, plc_vector axis, double angle)
 
   plc_fix_wrap(link);
 
+  /* The constraints turn with the curve. (The distance of a plane constraint
+     from the origin stays the same.) */
+
+  plc_constraint *cst;
+
+  for(cst=link->cst;cst != NULL;cst=cst->next) {
+
+    cst->vect[0] = plc_rotate_vect(cst->vect[0],axis,angle);
+    if (cst->kind == line) { cst->vect[1] = plc_rotate_vect(cst->vect[1],axis,angle); }
+
+  }
+
 }
 
  /* Translate a plCurve by a vector */
-- 
2.43.0


From 2361cc74f292ed3c2630c59f8f13d0c63ad063eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:31 +0000
Subject: [PATCH 05/57] fix: plc_random_rotate does nothing for the axis
 (0,0,-1)

The given axis is to point in the direction (0,0,1) afterwards.
---
 src/plCurve.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6fd0565..8b0f569 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2781,9 +2781,23 @@ void plc_random_rotate(plCurve *link, plc_vector axis)
     /* Finally, we changed vertices, so we need to */
     
     plc_fix_wrap(link);
+
+  } else if (zrand < 0) { /* The axis is (0,0,-1): half a turn around the x axis */
+
+    for(cp=0;cp < link->nc;cp++) {
+      for(vt=0;vt<link->cp[cp].nv;vt++) {
+
+	link->cp[cp].vt[vt].c[1] *= -1;
+	link->cp[cp].vt[vt].c[2] *= -1;
+
+      }
+    }
+
+    plc_fix_wrap(link);
+
   }
 
-  // else z is essentially 0 so we'll just leave things as is
+  // else the axis is (0,0,1) already so we'll just leave things as is
 }
 
 
-- 
2.43.0


From 40082f05ee3d641ddc682704554ba51cd18b03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:31 +0000
Subject: [PATCH 06/57] fix: plc_whitten misplaces constraints when it reverses
 a component

The run vert..vert+num_verts-1 becomes nv-vert-num_verts..nv-vert-1, and
only the constraints on the reversed component move.
---
 src/plwhitten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..ccfdb58 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -214,7 +214,7 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
       for(tc=L->cst;tc != NULL;tc=tc->next) {
 
-	tc->vert = (nv-1) - (tc->vert + tc->num_verts); 
+	if (tc->cmp == cp) { tc->vert = nv - (tc->vert + tc->num_verts); }
 
       }
 
-- 
2.43.0


From 0e1a3c85fd537a09f650140ceab7fd1413156ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:40 +0000
Subject: [PATCH 07/57] fix: plc_whitten reads one entry past the end of the
 permutation

---
 src/plwhitten.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index ccfdb58..c49abbb 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -81,7 +81,7 @@ int  iperm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=permsize-1;i>0;i--) {
     
     if (perm[i] == ind) { return perm[i-1]; }
 
-- 
2.43.0


From 5db53bf11b43aef49bb73a5cb2cc5ea7be4287a4 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 03:16:13 +0000
Subject: [PATCH 08/57] fix: constraints on different components are merged

overrun_check joined a constraint with the next one in the list when the
vertex indices happened to be adjacent, even if the next one lies on
another component.
---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 8b0f569..b41b32a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -506,6 +506,7 @@ static inline void overrun_check(plc_constraint *cst) {
   }
   /* Now combine adjacent constraints if possible */
   while (cst->next != NULL &&
+         cst->next->cmp == cst->cmp &&
          cst->next->vert == cst->vert+cst->num_verts &&
          cst->next->kind == cst->kind &&
          cst->kind != fixed &&
-- 
2.43.0


From 896ebae44e5577ec871aed099f42d8952dd2d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 09/57] fix: plc_s counts an edge that earlier open components
 do not have

The closing edge belongs to closed components only; for open ones the
hidden vertex made plc_s add the last edge twice.
---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index b41b32a..6c6f33b 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -235,7 +235,7 @@ double plc_s(const plCurve * const L, const int cmp, const int vert)
 
   for(c = 0;c < cmp;c++) {
 
-    for(v = 1;v <= L->cp[c].nv; v++) {
+    for(v = 1;v < L->cp[c].nv + (L->cp[c].open ? 0 : 1); v++) {
 
       d = plc_M_sq_dist(L->cp[c].vt[v-1],L->cp[c].vt[v])  /* ok not to ; */
       s += sqrt(d);	
-- 
2.43.0


From 4326541eee91070e418ce00aa9893835ba505d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:53 +0000
Subject: [PATCH 10/57] fix: plc_turning_angle leaves the status unset at the
 ends of an open component

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6c6f33b..b46eab0 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1595,6 +1595,7 @@ double plc_turning_angle(plCurve * const L, const int cp, const int invt, bool *
   
   if (L->cp[cp].open && (vt <= 0 || vt >= L->cp[cp].nv-1)) { // Addressing past ends of open curve yields zero
 
+    if (ok != NULL) { *ok = true; }
     return 0;
 
   } 
-- 
2.43.0


From a91cc511f3dbcbb8002bc4ad2b2a17ea12290921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:53 +0000
Subject: [PATCH 11/57] fix: plc_double_verts copies colours of components
 which have none

With cc == 0 the per-vertex loop ran over the empty colour buffers (heap
overflow); with per-vertex colours it left the last two unset.
---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index b46eab0..952d9a3 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2383,9 +2383,9 @@ plCurve *plc_double_verts(plCurve *L)
 
       newL->cp[cmp].clr[0] = L->cp[cmp].clr[0];
 
-    } else {
+    } else if (newL->cp[cmp].cc > 1) {
 
-      for(vt=0;vt<L->cp[cmp].nv-1;vt++) {
+      for(vt=0;vt<L->cp[cmp].nv;vt++) {
 
 	newL->cp[cmp].clr[2*vt+1] = newL->cp[cmp].clr[2*vt] = L->cp[cmp].clr[vt];
 	
-- 
2.43.0


From 06a660a28001b397cafbd3c244e7b5c13beaad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:44 +0000
Subject: [PATCH 12/57] fix: plc_convert_from_spline aborts on open components
 when s is rounded up

For the last vertex s = s_max*(nv-1)/nv may exceed the length of the
component by roundoff, which failed the assertion below.
---
 src/splines.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..ee97dcb 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -583,6 +583,9 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
     for (i=0, slo=0, shi=1; i < L->cp[comp].nv; i++) {
 
       s = s_max*i/L->cp[comp].nv;
+      if (spL->cp[comp].open && s > spL->cp[comp].svals[spL->cp[comp].ns-1]) {
+        s = spL->cp[comp].svals[spL->cp[comp].ns-1]; /* roundoff at the last vertex */
+      }
 
       /* Search to make sure that slo and shi bracket our current s.*/
 
-- 
2.43.0


From 94ee30c1152e46bdd6e99f10150c6a7bdd455b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:09 +0000
Subject: [PATCH 13/57] fix: plc_convert_from_spline reads past the colours of
 closed components

On the last segment of a closed component the upper end is vertex 0 again.
---
 src/splines.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index ee97dcb..05d9e37 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -603,11 +603,12 @@ plCurve *plc_convert_from_spline(const plc_spline * const spL,
 
       /* And interpolate the colors */
       if (do_colors) {
+        int chi = (shi < spL->cp[comp].cc) ? shi : 0; /* closed: back to the start */
         L->cp[comp].clr[i] = plc_build_color(
-            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[shi].r,
-            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[shi].g,
-            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[shi].b,
-            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[shi].alpha);
+            a*spL->cp[comp].clr[slo].r     + b*spL->cp[comp].clr[chi].r,
+            a*spL->cp[comp].clr[slo].g     + b*spL->cp[comp].clr[chi].g,
+            a*spL->cp[comp].clr[slo].b     + b*spL->cp[comp].clr[chi].b,
+            a*spL->cp[comp].clr[slo].alpha + b*spL->cp[comp].clr[chi].alpha);
       }
     }
 
-- 
2.43.0


From 3a4c4e0c1cf641d95058642ca5fa74d920425821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:44 +0000
Subject: [PATCH 14/57] fix: plc_write rounds the vectors of constraints to six
 digits

---
 src/plCurve.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 952d9a3..a8db876 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -870,13 +870,14 @@ void plc_write(FILE *outfile, plCurve * const L) {
                                 cst->num_verts, cst_list);
       cst_num++;
       if (cst->kind == fixed) {
-        fprintf(outfile, "# Constraint %d Fixed %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Fixed %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]));
       } else if (cst->kind == line) {
-        fprintf(outfile, "# Constraint %d Line %g %g %g %g %g %g\n", cst_num,
+        fprintf(outfile, "# Constraint %d Line %.16g %.16g %.16g %.16g %.16g %.16g\n",
+          cst_num,
           plc_M_clist(cst->vect[0]), plc_M_clist(cst->vect[1]));
       } else if (cst->kind == plane) {
-      fprintf(outfile, "# Constraint %d Plane %g %g %g %g\n", cst_num,
+      fprintf(outfile, "# Constraint %d Plane %.16g %.16g %.16g %.16g\n", cst_num,
           plc_M_clist(cst->vect[0]), cst->vect[1].c[0]);
       }
     }
-- 
2.43.0


From 4c05ff52e8b4abfb16bbb5d3161b2d50b5856da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:44 +0000
Subject: [PATCH 15/57] fix: plc_write cuts off the constraint numbers of long
 vertex lines

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index a8db876..4d523f7 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -800,8 +800,8 @@ void plc_write(FILE *outfile, plCurve * const L) {
   int i,j;                  /* Counters for the for loops */
   int nverts = 0;           /* Total number of vertices of all components */
   int colors = 0;           /* Total number of colors of all components */
-  char outstr[80] = "";     /* So we can wrap the vertex lines */
-  char outstr2[80] = "";    /* Again for wrapping */
+  char outstr[160] = "";    /* So we can wrap the vertex lines */
+  char outstr2[160] = "";   /* Again for wrapping */
   int cst_num;              /* This constraint */
   int **cst_nums = NULL;    /* All constraint numbers */
   plc_constraint *cst;  /* Current constraint */
-- 
2.43.0


From a74e44d56848d76510c0108d0232296b2ce20bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:44 +0000
Subject: [PATCH 16/57] fix: plc_read makes too little room for ten constraints
 or more

---
 src/plCurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 4d523f7..88b49e1 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1310,7 +1310,7 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+      cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
-- 
2.43.0


From b0d209f71f1e27d34f4ef4cda37884154575241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:19 +0000
Subject: [PATCH 17/57] fix: plc_read puts text it has freed into the error
 message

---
 src/plCurve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 88b49e1..bbd3e7a 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1303,10 +1303,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_NUM;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
+      free(comment);
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
@@ -1392,10 +1392,10 @@ void plc_fix_wrap(plCurve * const L) {
       plc_free(L);
       assert(cst_list->next == NULL);
       free(cst_list);
-      free(comment);
       *error_num = PLC_E_BAD_CST_KIND;
       (void)snprintf(error_str,error_str_len,
         "plc_read: Unrecognized constraint kind '%s'.\n",place);
+      free(comment);
       return NULL;
     }
   }
-- 
2.43.0


From 861f2f1306ce0ee1b9b5d1784cd6d44448d47b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 18/57] fix: plc_read uses constraints which the file does not
 define

---
 src/plCurve.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index bbd3e7a..ab9fdbf 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1310,10 +1310,13 @@ void plc_fix_wrap(plCurve * const L) {
       return NULL;
     }
     if (cst_num+1 > (int)cst_list_len) {
+      size_t old_len = cst_list_len;
       cst_list_len = (size_t)(10*((cst_num+11) / 10)); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,
+             (cst_list_len-old_len)*sizeof(plc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1423,7 +1426,9 @@ void plc_fix_wrap(plCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || cst_num >= (int)cst_list_len ||
+            (cst_num != 0 && cst_list[cst_num].kind == unconstrained)) {
           plc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
-- 
2.43.0


From 7704d41eb5671531ec00dcc47ac551abecec42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:40 +0000
Subject: [PATCH 19/57] fix: plc_read reads past a constraint at the end of a
 file

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index ab9fdbf..6ecdc62 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -986,6 +986,7 @@ void plc_write(FILE *outfile, plCurve * const L) {
     inchar = fgetc(infile);
 
     if (inchar == EOF) {
+      add_char_to_buf(' '); /* The last token ends in a space, too */
       end_str_and_return;
     } else if (inchar == (int)'#') { /* Started a comment. */
       if (comment_flag) { /* We're already reading a comment */
-- 
2.43.0


From 29810fbff8e138f6387a45da5a132a998d6d7881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 20/57] fix: plc_totalcurvature adds undefined angles on open
 components

---
 src/plCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6ecdc62..98cb1ca 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1689,6 +1689,8 @@ double plc_totalcurvature(const plCurve * const L,
 			  plc_vect_diff(L->cp[cp].vt[vt]  ,L->cp[cp].vt[vt-1]),
 			  &ok);
 
+	if (!ok) { angle = 0; }
+
 	if (component_tc != NULL) {
   
 	  component_tc[cp] += angle;
-- 
2.43.0


From d7b31dc768ffae45a1e2a6576e1dbf158bcd8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 21/57] fix: pd_cross_ok leaks its counters when it rejects a
 diagram

---
 src/pdcode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..a6d3cd5 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2153,6 +2153,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (!(pd->cross[cross].sign == PD_POS_ORIENTATION || pd->cross[cross].sign == PD_NEG_ORIENTATION || pd->cross[cross].sign == PD_UNSET_ORIENTATION)) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
 		      cross,pd->cross[cross].sign);
 
@@ -2164,6 +2165,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       if (!(edge < pd->nedges)) {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
 			pd,
 			cross,edge,pd->nedges);
@@ -2194,6 +2196,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
       } else {
 
+	free(edge_seen);
 	return pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
 
       }
@@ -2207,6 +2210,7 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (pd_cross_cmp(&(pd->cross[cross]),&(pd->cross[cross-1])) < 0) {
 
+      free(edge_seen);
       return pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
 		      pd,cross-1,cross);
 
-- 
2.43.0


From 42b756c9179579e53c388e2f4aac11bc6b4767a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 22/57] fix: pd_faces_ok stops the program on a face without
 edges or with an illegal orientation

---
 src/pdcode.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index a6d3cd5..4d684aa 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2537,6 +2537,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"%FACE contains no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
@@ -2557,6 +2563,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
       }
 
+      if (!pd_or_ok(f->orient[edge]) || !pd_or_ok(f->orient[nxt_edge])) {
+
+	return pd_error(SRCLOC,"%FACE contains an edge with illegal orientation in pd %PD",pd,face);
+
+      }
+
       /* Check that consecutive edges meet at vertex in left turn. */
 
       this = pd_oriented_edge(pd->edge[f->edge[edge]],f->orient[edge]);
-- 
2.43.0


From 7e24ddffe85af63dadbb0f6781c57a5c94f6e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 23/57] fix: pd_comps_ok reads edge records outside the diagram

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 4d684aa..49eafa3 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2388,6 +2388,12 @@ bool pd_comps_ok(pd_code_t *pd)
       e_idx = pd->comp[comp].edge[edge];
       n_idx = pd->comp[comp].edge[next_edge];
 
+      if (e_idx >= pd->nedges || n_idx >= pd->nedges) {
+
+	return pd_error(SRCLOC,"%COMP contains illegal edge number in pd %PD",pd,comp);
+
+      }
+
       if (pd->edge[e_idx].head != pd->edge[n_idx].tail ||
 	  (4 + pd->edge[e_idx].headpos - pd->edge[n_idx].tailpos) % 4 != 2) {
 
-- 
2.43.0


From 558625b90c2ee62a146b2d93387fbdff585e1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 24/57] fix: pd_comps_ok never checks the smallest tag

---
 src/pdcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 49eafa3..392013b 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2428,9 +2428,9 @@ bool pd_comps_ok(pd_code_t *pd)
 
   qsort(tagset,pd->ncomps,sizeof(pd_tag_t),pd_tag_cmp);
 
-  for(i=1;i<pd->ncomps;i++) {
+  for(i=0;i<pd->ncomps;i++) {
 
-    if (tagset[i] == tagset[i-1]) {
+    if (i > 0 && tagset[i] == tagset[i-1]) {
 
       pd_idx_t compA, compB;
       bool Afound = false, Bfound = false;
-- 
2.43.0


From ae0421b935c5040b448d2ed0b18c55e5f14ea134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:11 +0000
Subject: [PATCH 25/57] fix: pd_comps_ok leaks its tags when it rejects a
 diagram

---
 src/pdcode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 392013b..e4ca49e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2455,6 +2455,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
 
     }
@@ -2474,6 +2475,7 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
+      free(tagset);
       return pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
 
     }
-- 
2.43.0


From 9edeae547c23e9c3fddbe16a8f550dc984cf8f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:35 +0000
Subject: [PATCH 26/57] fix: pd_edges_ok accepts edge positions in a diagram
 without crossings

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index e4ca49e..5304bdd 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2259,7 +2259,7 @@ bool pd_edges_ok(pd_code_t *pd)
     }
 
     if (e->headpos >= 4 ||
-	e->tailpos >= 4) {
+	e->tailpos >= 4 || pd->ncross == 0) {
 
       if (pd->ncross != 0) {
 
-- 
2.43.0


From 7fd8be301fd0847cf895b6654c4cc881195719a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:44 +0000
Subject: [PATCH 27/57] fix: pd_stareq_perm leaves a stale precomputed index

---
 src/pd_perm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..142f554 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A); /* The precomputed index must follow the map. */
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From ea35e133ed20072e47a50e5edfc8f6a53e6fc44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:44 +0000
Subject: [PATCH 28/57] fix: pd_perm_ok reads past the precomputed permutations

---
 src/pd_perm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 142f554..3243314 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -195,7 +195,7 @@ bool pd_perm_ok(void *permP)
 
   if (perm->n <= PD_MAX_PC_PERM) { /* Check perm->pc_idx legal. */
 
-    if (perm->pc_idx > pd_nperms(perm)) {
+    if (perm->pc_idx >= pd_nperms(perm)) {
 
       return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
 		      perm,perm->pc_idx,pd_nperms(perm));
-- 
2.43.0


From 45c7ab3421b63f5eef310e4d341c5b467f910d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:07 +0000
Subject: [PATCH 29/57] fix: uniqueness tests run off an empty buffer

---
 src/pd_cyclic.c      | 2 +-
 src/pd_dihedral.c    | 2 +-
 src/pd_multidx.c     | 2 +-
 src/pd_orientation.c | 2 +-
 src/pd_perm.c        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..ad570c4 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -264,7 +264,7 @@ bool pd_cyclics_unique(unsigned int ncyclics,pd_cyclic_t **cyclic_buf)
 
   unsigned int i;
 
-  for(i=0;i<ncyclics-1;i++) {
+  for(i=0;i+1<ncyclics;i++) {
 
     if (pd_cyclic_cmp(&(cyclic_buf[i]),&(cyclic_buf[i+1])) == 0) {
 
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..0493caa 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -351,7 +351,7 @@ bool pd_dihedrals_unique(unsigned int ndihedrals,pd_dihedral_t **dihedral_buf)
 
   unsigned int i;
 
-  for(i=0;i<ndihedrals-1;i++) {
+  for(i=0;i+1<ndihedrals;i++) {
 
     if (pd_dihedral_cmp(&(dihedral_buf[i]),&(dihedral_buf[i+1])) == 0) {
 
diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..5b8ee93 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -251,7 +251,7 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
   unsigned int i;
 
-  for(i=0;i<nmultidxs-1;i++) {
+  for(i=0;i+1<nmultidxs;i++) {
 
     if (pd_multidx_cmp(&(mb_copy[i]),&(mb_copy[i+1])) == 0) {
 
diff --git a/src/pd_orientation.c b/src/pd_orientation.c
index b020dbc..32b44d9 100644
--- a/src/pd_orientation.c
+++ b/src/pd_orientation.c
@@ -179,7 +179,7 @@ bool pd_orientations_unique(unsigned int norientations,pd_orientation_t **orient
 
   unsigned int i;
 
-  for(i=0;i<norientations-1;i++) {
+  for(i=0;i+1<norientations;i++) {
 
     if (pd_orientation_cmp(&(orientation_buf[i]),&(orientation_buf[i+1])) == 0) {
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 3243314..525b04a 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -320,7 +320,7 @@ bool pd_perms_unique(unsigned int nperms,pd_perm_t **perm_buf)
 
   unsigned int i;
 
-  for(i=0;i<nperms-1;i++) {
+  for(i=0;i+1<nperms;i++) {
 
     if (pd_perms_eq(perm_buf[i],perm_buf[i+1])) {
 
-- 
2.43.0


From f95b4e3e6c963ec6c1281d2c58932f5dab493270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 30/57] fix: pd_multidx_ok rejects every new empty multidx

---
 src/pd_multidx.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index 5b8ee93..0748ab0 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -174,12 +174,7 @@ bool  pd_multidx_ok(pd_multidx_t *idx)
 
   if (idx == NULL) { return true; }
 
-  if (idx->nobj == 0) { /* A trivial case; all buffers should be null. */
-
-    if (idx->obj != NULL || idx->i != NULL || idx->nvals != NULL) { return false; }
-    return true;
-
-  }
+  if (idx->nobj == 0) { return true; } /* A trivial case; there is nothing in the buffers. */
 
   if (idx->i == NULL || idx->nvals == NULL) { return false; }
 
-- 
2.43.0


From 9d5369f6463daa96e6395de7ffbf4083defccb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:52 +0000
Subject: [PATCH 31/57] fix: pd_cyclic_ok accepts maps that are not rotations

---
 src/pd_cyclic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index ad570c4..b00790f 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -214,9 +214,9 @@ bool pd_cyclic_ok(void *cyclicP)
 
   /* Now we know that d contains a valid permutation of 0..n-1 */
 
-  for(i=0;i<(c->n)-1;i++) {
+  for(i=0;i+1<c->n;i++) {
 
-    if (c->map[i] >= c->map[i+1] && !(c->map[i] == (c->n)-1 && c->map[i+1] == 0)) { 
+    if (c->map[i+1] != (c->map[i] + 1) % c->n) { 
 
       return pd_error(SRCLOC,"%CYCLIC has isn't a rotation.\n",NULL,c);
 
-- 
2.43.0


From 0bf16c0857d3c9e8aa2a3ba01d97520efb3c41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:52 +0000
Subject: [PATCH 32/57] fix: pd_dihedral_ok accepts maps that are neither
 rotations nor reflections

---
 src/pd_dihedral.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index 0493caa..cb61afe 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -280,9 +280,9 @@ bool pd_dihedral_ok(void *dihedralP)
 
   if (d->orient == PD_NEG_ORIENTATION) { /* This is a reflection and should go down as we read. */
 
-    for(i=0;i<(d->n)-1;i++) { 
+    for(i=0;i+1<d->n;i++) { 
 
-      if (d->map[i] <= d->map[i+1] && !(d->map[i] == 0 && d->map[i+1] == (d->n) - 1)) {
+      if (d->map[i] != (d->map[i+1] + 1) % d->n) {
 
 	return pd_error(SRCLOC,"%DIHEDRAL has negative orientation but isn't a reflection.\n",NULL,d);
 
@@ -292,9 +292,9 @@ bool pd_dihedral_ok(void *dihedralP)
  
   } else { /* This is a rotation and should go up as we read. */
 
-    for(i=0;i<(d->n)-1;i++) {
+    for(i=0;i+1<d->n;i++) {
 
-      if (d->map[i] >= d->map[i+1] && !(d->map[i] == (d->n)-1 && d->map[i+1] == 0)) { 
+      if (d->map[i+1] != (d->map[i] + 1) % d->n) { 
 
 	return pd_error(SRCLOC,"%DIHEDRAL has positive orientation but isn't a rotation.\n",NULL,d);
 
-- 
2.43.0


From 437aaee4b2a56eff55c31f2bfc1bd2b353de6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:42 +0000
Subject: [PATCH 33/57] fix: pd_multidxs_unique leaks its buffer when it finds
 a repetition

---
 src/pd_multidx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index 0748ab0..74cdbbc 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -269,7 +269,7 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "multidx_buf contains\n"
 		      "%MULTIDX == \n"
 		      "%MULTIDX at positions %d, %d \n"
@@ -277,6 +277,9 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 		      ,NULL,
 		      mb_copy[i],mb_copy[i+1],j,k,i,i+1);
 
+      free(mb_copy);
+      return false;
+
     }
 
   }
-- 
2.43.0


From b82210f0d363c408b0d8a058044daf6953b5517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:09 +0000
Subject: [PATCH 34/57] fix: packing shifts a signed 1 by 31 places

---
 src/pd_pack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index d1236c0..6e92e5e 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -71,10 +71,10 @@ unsigned int pd_packbits(unsigned int ncross,pd_signcross_t crtype)
 
 /* We now give code for unpacking a string of unsigned ints into bits and vice versa */
 
-#define SET_BIT(val, bitIndex)     val |= (1 << bitIndex)
-#define CLEAR_BIT(val, bitIndex)   val &= ~(1 << bitIndex)
-#define TOGGLE_BIT(val, bitIndex)  val ^= (1 << bitIndex)
-#define BIT_IS_SET(val, bitIndex) (val & (1 << bitIndex))
+#define SET_BIT(val, bitIndex)     val |= (1u << bitIndex)
+#define CLEAR_BIT(val, bitIndex)   val &= ~(1u << bitIndex)
+#define TOGGLE_BIT(val, bitIndex)  val ^= (1u << bitIndex)
+#define BIT_IS_SET(val, bitIndex) (val & (1u << bitIndex))
 
 unsigned int *pd_packbitstring(unsigned int *intform,unsigned int nints,unsigned int *packints)
 /* Convert a string of unsigned ints, each 1 or 0, into a
-- 
2.43.0


From d79110e16c811571d68cca5603655988de4058db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:50 +0000
Subject: [PATCH 35/57] fix: unpacking a diagram without crossing signs makes
 all crossings negative

---
 src/pd_pack.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pd_pack.c b/src/pd_pack.c
index 6e92e5e..cd98936 100644
--- a/src/pd_pack.c
+++ b/src/pd_pack.c
@@ -423,6 +423,17 @@ pd_code_t *pd_unpack(unsigned int *bitform)
      and it should be ok to call pd_regenerate. */
 
   pd_regenerate(pd);
+
+  /* If no signs were stored, then none are known. (This has to wait
+     until now: pd_regenerate would rebuild the edges, in arbitrary
+     directions, for a code without signs.) */
+
+  if (crtype == UNSIGNED_CROSSINGS) {
+
+    for(k=0;k<pd->ncross;k++) { pd->cross[k].sign = PD_UNSET_ORIENTATION; }
+
+  }
+
   assert(pd_ok(pd));
   
   return pd;
-- 
2.43.0


From ad58bf3016c7794988ddc4af3a5899efaca8da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 36/57] fix: pd_build_diagram_isotopies exits when tags are in
 different orders

---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..1eef320 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2574,6 +2574,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   /* We SHOULD have assembled a permutation of components. */
 
+  pd_regenerate_pcidx(comp_perm);
+
   if (!pd_perm_ok(comp_perm)) {
 
     pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-- 
2.43.0


From 71e21e45c3701597bdd6abb95d0f36436c799cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 37/57] fix: pd_build_diagram_isotopies leaks its container
 when component sizes differ

---
 src/pd_isomorphisms.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 1eef320..abfd9eb 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2593,6 +2593,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
+      pd_free_container(&isos,pd_free_fake);
       pd_free_perm((void **)(&comp_perm));
       *nisos = 0;
       return NULL;
-- 
2.43.0


From 3f5d30ae6a2057538bcae6239f9ef7a37106d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 38/57] fix: comparing diagrams with different tags ends the
 process

---
 src/pd_isomorphisms.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index abfd9eb..4e403ea 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2562,11 +2562,12 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     }
 
-    if (!tag_found) { /* Something weird has happened. */
+    if (!tag_found) { /* No component of pdB has this tag, so there are no diagram isotopies. */
 
-      pd_error(SRCLOC,"couldn't find tag from %COMP of pdA = %PD in",pdA,i);
-      pd_error(SRCLOC,"pdB = %PD\n",pdB);
-      exit(1);
+      pd_free_container(&isos,pd_free_fake);
+      pd_free_perm((void **)(&comp_perm));
+      *nisos = 0;
+      return NULL;
 
     }
 
-- 
2.43.0


From c7ce2a97a8aa2ac060b8936ff81e2c86d7365af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 39/57] fix: isomorphisms with reversed two-edge components

---
 src/pd_isomorphisms.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 4e403ea..9621bff 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -1455,6 +1455,34 @@ pd_iso_t **pd_build_isos(pd_code_t *pdA,pd_code_t *pdB,unsigned int *nisos)
   return pdint_build_isos(pdA,pdB,nisos,false);
 }
 
+static bool pdint_edges_follow_crossings(pd_code_t *pdA,pd_code_t *pdB,
+					 pd_edgemap_t *edgemap,pd_crossmap_t *crossmap)
+
+/* The edges around the crossings don't determine the directions of the edges
+   in a component with only two edges, so we check that the ends of every
+   edge are mapped to the ends of its image. */
+
+{
+  pd_idx_t edge;
+
+  if (pdA->ncross == 0) { return true; }
+
+  for(edge=0;edge<pdA->nedges;edge++) {
+
+    pd_edge_t from = pdA->edge[edge];
+    pd_edge_t to   = pd_oriented_edge(pdB->edge[edgemap->perm->map[edge]],edgemap->orient[edge]);
+
+    if (crossmap->perm->map[from.head] != to.head || crossmap->perm->map[from.tail] != to.tail) {
+
+      return false;
+
+    }
+
+  }
+
+  return true;
+}
+
 pd_iso_t **pdint_build_isos(pd_code_t *pdA,pd_code_t *pdB,
 			    unsigned int *nisos,bool FAILEARLY)
 {
@@ -1552,6 +1580,8 @@ pd_iso_t **pdint_build_isos(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
+	if (!pdint_edges_follow_crossings(pdA,pdB,edgemaps[edgemap],crossmaps[map])) { continue; }
+
 	pd_iso_t *new_iso;
 	new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
 
@@ -2630,6 +2660,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
 	for(map=0;map<nmaps;map++) { /* We have actually generated an isomorphism! */
 
+	  if (!pdint_edges_follow_crossings(pdA,pdB,edgemaps[edgemap],crossmaps[map])) { continue; }
+
 	  pd_iso_t *new_iso;
 	  new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
 
@@ -2643,7 +2675,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
 	}
 
-      } else {
+      } else if (pdint_edges_follow_crossings(pdA,pdB,edgemaps[edgemap],crossmaps[0])) {
 
 	assert(ncrossmaps == 1 && nfacemaps == 2);
 
@@ -2829,7 +2861,8 @@ pd_iso_t **pdint_build_map_isomorphisms(pd_code_t *pdA,pd_code_t *pdB,
 
       for(map=0;map<nmaps && !abortflag;map++) { /* We have actually generated an isomorphism! */
 
-          if(crossmaps[map]->orient == PD_POS_ORIENTATION) { // We have a *map* isomorphism (oriented S2)
+          if(crossmaps[map]->orient == PD_POS_ORIENTATION &&
+             pdint_edges_follow_crossings(pdA,pdB,edgemaps[edgemap],crossmaps[map])) { // We have a *map* isomorphism (oriented S2)
 
               pd_iso_t *new_iso;
               new_iso = calloc(1,sizeof(pd_iso_t)); assert(new_iso != NULL);
-- 
2.43.0


From 36ae69be247375b80f4b8b1e2150a58dffc24ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:33 +0000
Subject: [PATCH 40/57] fix: products of edge maps keep a stale precomputed
 index

---
 src/pd_isomorphisms.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 9621bff..72cea70 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -771,6 +771,8 @@ pd_edgemap_t  *pd_compose_edgemaps(pd_edgemap_t *A,pd_edgemap_t *B)
 
   }
 
+  pd_regenerate_pcidx(AstarB->perm);
+
   return AstarB;
 
 }
@@ -782,6 +784,7 @@ void           pd_stareq_edgemap(pd_edgemap_t *A,pd_edgemap_t *B)
   AstarB = pd_compose_edgemaps(A,B);
   memcpy(A->perm->map,AstarB->perm->map,A->perm->n*sizeof(pd_idx_t));
   memcpy(A->orient,AstarB->orient,A->perm->n*sizeof(pd_or_t));
+  A->perm->pc_idx = AstarB->perm->pc_idx;
   pd_free_edgemap(&AstarB);
 }
 
-- 
2.43.0


From 47911fd8673970dfd63f90c36aa2ce5d4ba141e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 41/57] fix: reading a damaged pd file writes out of bounds,
 ends the process or returns an invalid diagram

---
 src/pdcode.c | 70 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 5304bdd..e09466c 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3173,7 +3173,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1); /* leave room for the 0 */
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
@@ -3270,6 +3270,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  if (input_temp > (UINT_MAX-3)/2) { /* No diagram this size can be indexed (this includes negative numbers). */
+
+    pd_error(SRCLOC,"number of crossings in pdcode file is out of range\n",NULL);
+    pd_err_set(err, PD_BAD_FORMAT);
+    return NULL;
+
+  }
+
   /* We now know the number of crossings to allocate space for,
      and we can call pd_new. We make sure that we have space for
      at least two more crossings than we see now (to prevent zero
@@ -3307,12 +3315,19 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
 
-    fscanf(infile," %c ",&tag);
+    if (fscanf(infile," %c ",&tag) != 1) {
+
+      pd_error(SRCLOC,
+	       "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
+      pd_err_set(err, PD_BAD_FORMAT);
+      return NULL;
+
+    }
     pd_code_t *outcode;
     outcode = pd_build_unknot(0);
     outcode->comp[0].tag = tag;
@@ -3447,6 +3462,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
@@ -3485,23 +3501,23 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
     if (pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
                "Reading component which appears to be valid but has %d edges. "
                "We expect only a maximum of pd->MAXEDGES = %d.\n",
-               pd,pd->nedges,pd->MAXEDGES);
+               pd,pd->comp[comp].nedges,pd->MAXEDGES);
       pd_err_set(err, PD_BAD_FORMAT);
       pd_code_free(&pd);
       return NULL;
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
@@ -3523,7 +3539,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     /* Skip whitespace until we find a character... */
 
     char testchar;
-    fscanf(infile," %c",&testchar);
+    if (fscanf(infile," %c",&testchar) != 1) {
+
+      pd_error(SRCLOC,"file ends after the edges of component %d\n",pd,comp);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
 
     if (testchar == 't') { /* for tag */
 
@@ -3649,9 +3672,34 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   }
 
+  /* The references between the records have to make sense before we
+     can follow them. */
+
+  for(edge=0;edge<pd->nedges;edge++) {
+
+    if (pd->edge[edge].head >= pd->ncross || pd->edge[edge].headpos >= 4 ||
+	pd->edge[edge].tail >= pd->ncross || pd->edge[edge].tailpos >= 4) {
+
+      pd_error(SRCLOC,"edge %d refers to a crossing or position which doesn't exist\n",pd,edge);
+      pd_err_set(err, PD_NOT_OK);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
+  }
+
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    pd_error(SRCLOC,"file is in the right format, but does not describe a valid pd code\n",pd);
+    pd_err_set(err, PD_NOT_OK);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
-- 
2.43.0


From c414eb72d30a03f64e3888cbf9feeb30bc5773cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 42/57] fix: KnotTheory files with impossible edge numbers
 write out of bounds

---
 src/pdcode.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index e09466c..fe640c8 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3791,6 +3791,33 @@ ones we don't need.
 
   pd_idx_t cr;
 
+  /* The edges have to be numbered 1..2n, and each number has to appear twice. */
+
+  pd_idx_t *edge_uses = calloc(2*crbuf_used,sizeof(pd_idx_t));
+  assert(edge_uses != NULL);
+
+  for(cr=0;cr<crbuf_used;cr++) {
+
+    pd_idx_t j;
+    for(j=0;j<4;j++) {
+
+      pd_idx_t e = crbuf[cr].edge[j]-1;
+      if (e >= 2*crbuf_used || ++edge_uses[e] > 2) {
+
+	printf("pd_read_KnotTheory: Edge numbers are not 1 to %d, twice each.\n",2*crbuf_used);
+	free(edge_uses);
+	free(crbuf);
+	pd_code_free(&pd);
+	return NULL;
+
+      }
+
+    }
+
+  }
+
+  free(edge_uses);
+
   /* Now we're going to scan through and set crossings AND EDGES. */
 
   for(cr=0;cr<crbuf_used;cr++) {
@@ -4336,6 +4363,7 @@ ones we don't need.
   if (!pd_ok(pd)) {
 
     printf("pd_read_KnotTheory: Regenerated PD does not pass pd_ok. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
     return NULL;
 
   }
-- 
2.43.0


From ec1ec2f84fd5e941c1cde89560e47105abe43f29 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 43/57] fix: a store file with a contradictory header is
 rejected also without PD_VERBOSE

---
 src/pd_storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..78b027b 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -742,10 +742,11 @@ pd_stor_t *pd_read_pdstor(FILE *stream, pd_equivalence_t eq)
       if (PD_VERBOSE) {
 
 	printf("pd_read_pdstor: Header of pdstor file appears corrupt.\n");
-	return NULL;
 
       }
 
+      return NULL;
+
     }
 
     nelts = nelts_claimed;
-- 
2.43.0


From 51e29bffed93d0b4e5a7b66e5e67a62c36141810 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 44/57] fix: memory kept by bigon elimination that splits a
 diagram and by a refused triangle flip

---
 src/pd_crossingmoves.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..b1a00f5 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -149,6 +149,7 @@ void pd_compacting_copy(void *source, size_t obj_size, size_t nobj,
     for(i=0;i<nobj;i++) {
       tidx[i] = PD_UNSET_IDX;
     }
+    free(uniquedeletions);
     return;
   }
 
@@ -1710,6 +1711,8 @@ v         |                     |         ^
         /* Then we do some housecleaning. */
 
         free(compstate);
+        free(A_crossings); free(B_crossings);
+        free(A_edges); free(B_edges);
         free(new_crossing_idx_A); free(new_crossing_idx_B);
         free(new_edge_idx_A); free(new_edge_idx_B);
 
@@ -1909,6 +1912,7 @@ pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
 
     if (pd->face[f].nedges != 3) {
         // Should also check for 3 vertices... hmm
+        pd_code_free(&ret);
         return NULL;
     }
 
-- 
2.43.0


From 7ab3cca477d64b890e91d86b1edd3909dade2160 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 45/57] fix: connect sum with the 0-crossing unknot reads out
 of bounds

---
 src/pd_crossingmoves.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index b1a00f5..1b55ac6 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -2302,6 +2302,12 @@ pd_code_t *pd_connect_sum(pd_code_t *pdA, pd_idx_t edgeA,
   pd_check_edge(SRCLOC,pdA,edgeA);
   pd_check_edge(SRCLOC,pdB,edgeB);
 
+  /* Summing with a 0-crossing unknot changes nothing (and there are
+     no crossings to reconnect the edges at). */
+
+  if (pdA->ncross == 0) { return pd_copy(pdB); }
+  if (pdB->ncross == 0) { return pd_copy(pdA); }
+
   /* The algorithm here is straightforward; allocate space,
      copy crossings and edges, then reconnect edges. */
 
-- 
2.43.0


From 2e0383b5401f4b272e1a74b25c81a8470a4748a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:28 +0000
Subject: [PATCH 46/57] fix: LU decomposition never reports success and keeps
 memory on failure

---
 src/matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 7913804..d04567d 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -100,6 +100,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
     if (big == 0.0) {
 
       *ok = false;
+      free(cvt);
       return NULL;
 
     }
@@ -187,6 +188,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
 
   /* We are now done. Our mission is to return the data. */
 
+  *ok = true;
   return cvt;
 
   }
-- 
2.43.0


From d333cb3672d81aeb1a6cd32914f5614a38876d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:00 +0000
Subject: [PATCH 47/57] fix: the coordinate plane reflections are not a group,
 and a missing one is not noticed

---
 src/symmetries.c | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..98f0138 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -411,36 +411,29 @@ plc_symmetry_group *plc_reflection_group(plCurve *L,plc_vector axis)
 
 plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
 
-/* Creates reflections over the x-y, y-z, and z-x planes. */
+/* Creates the group generated by reflections over the x-y, y-z, and z-x planes. */
 
 {
   plc_symmetry_group *build;
-  build = plc_symmetry_group_new(4);
+  build = plc_symmetry_group_new(8);
 
-  /* We now try to set up the group. */
+  /* The group consists of the 8 ways to choose signs for the coordinates. */
 
   plc_matrix A;
-  plc_identity_matrix(&A);
-  build->sym[0] = plc_build_symmetry(&A,L);
+  int i,j;
 
-  plc_reflection_matrix(plc_build_vect(1,0,0),&A);
-  build->sym[1] = plc_build_symmetry(&A,L);
+  for(i=0;i<8;i++) {
 
-  plc_reflection_matrix(plc_build_vect(0,1,0),&A);
-  build->sym[2] = plc_build_symmetry(&A,L);
-  
-  plc_reflection_matrix(plc_build_vect(0,0,1),&A);
-  build->sym[3] = plc_build_symmetry(&A,L);
-
-  /* All elements are their own inverses */
+    plc_identity_matrix(&A);
+    for(j=0;j<3;j++) { if (i & (1 << j)) { A[j][j] = -1; } }
+    build->sym[i] = plc_build_symmetry(&A,L);
+    build->inverse[i] = i; /* All elements are their own inverses */
 
-  build->inverse[0] = 0; build->inverse[1] = 1; 
-  build->inverse[2] = 2; build->inverse[3] = 3;
+  }
 
   /* We need to scan and make sure the builds succeeded. */
 
-  int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<8;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From f533ce257c533c7d5a604a49e20d59d5817dfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:15 +0000
Subject: [PATCH 48/57] fix: symmetrizing a curve leaves its hidden vertices
 behind

---
 src/symmetries.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index 98f0138..57097be 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -505,6 +505,7 @@ void plc_symmetrize(plCurve *L)
   }
 	  
   free(point_covered);
+  plc_fix_wrap(L);
 
 }
 
-- 
2.43.0


From 17f03f6e6f27881887bb5690be32fb341523ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 49/57] fix: adding or dropping a component of a curve with
 symmetries frees too much or too little

---
 src/plCurve.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 98cb1ca..aaa4a39 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2050,6 +2050,9 @@ void plc_add_component(plCurve *L, const int add_as, const int nv,
   assert(add_as >= 0);
   assert(add_as <= L->nc);
 
+  /* The symmetries map the old set of components to itself, so they are lost */
+  plc_symmetry_group_free(&(L->G));
+
   L->nc++;
   /*@-compdestroy@*/
   L->cp = realloc(L->cp,L->nc*sizeof(plc_strand));
@@ -2092,6 +2095,9 @@ void plc_drop_component(plCurve *L, const int cmp) {
   assert(cmp < L->nc);
   assert(L->nc > 0);
 
+  /* The symmetries map the old set of components to itself, so they are lost */
+  plc_symmetry_group_free(&(L->G));
+
   L->nc--;
   L->cp[cmp].vt--;
   free(L->cp[cmp].vt);
-- 
2.43.0


From b79a1233af23e73f8fa475ab200d9af99c1bc59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:00 +0000
Subject: [PATCH 50/57] fix: deleting an arc keeps symmetries that refer to the
 deleted vertices

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index aaa4a39..5e5e6c5 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -2958,6 +2958,7 @@ double *plc_mean_squared_chordlengths( plCurve *L, int cp, int *skips,int nskips
 
     newL = plc_copy(L);
     plc_remove_all_constraints(newL);  
+    plc_symmetry_group_free(&(newL->G)); /* The symmetries need the deleted vertices */
 
     if (L->cp[cp].open) { /* We're going to split or truncate open component */
 
-- 
2.43.0


From ba1a638b4815ad72b357a867f20de17523d7678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:06 +0000
Subject: [PATCH 51/57] fix: permuting or reversing components leaves the
 constraint list out of order

---
 src/plwhitten.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index c49abbb..7351f0c 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -224,6 +224,25 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
 
   plc_fix_wrap(L);
 
+  /* The constraint list is kept in order of component and vertex, so put it back in order. */
+
+  plc_constraint *sorted = NULL, *next, **place;
+
+  for(tc=L->cst;tc != NULL;tc=next) {
+
+    next = tc->next;
+
+    for(place = &sorted;
+	*place != NULL && ((*place)->cmp < tc->cmp || ((*place)->cmp == tc->cmp && (*place)->vert < tc->vert));
+	place = &((*place)->next)) { }
+
+    tc->next = *place;
+    *place = tc;
+
+  }
+
+  L->cst = sorted;
+
   /* We have now applied everything. */
 
 }
-- 
2.43.0


From d7259c67ccf8c5265c50d5356a51d200da56848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:06 +0000
Subject: [PATCH 52/57] fix: permuting, reversing or mirroring a curve keeps
 symmetries it no longer has

---
 src/plwhitten.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 7351f0c..2d39940 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -96,6 +96,10 @@ void plc_whitten(plCurve *L, int mirror, int *eps, int *thisperm)
   plc_strand *newpos;
   int i;
 
+  /* The symmetries number vertices and components, so they are lost */
+
+  plc_symmetry_group_free(&(L->G));
+
   /* First, create a new, permuted version of the strands in L */
 
   newpos = calloc(L->nc,sizeof(plc_strand));
-- 
2.43.0


From f7d406a1046ea48cfd2e8d37e9937fc8250184d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 53/57] fix: plc_loop_closure read the vertices of the closing
 arc from component cp of a one-component curve

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cf7bc3f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1239,7 +1239,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From 44af755c5255b2267919f8090a82ed32c8781025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:29 +0000
Subject: [PATCH 54/57] fix: plc_loop_closure crashed when one edge cannot use
 up the remaining length

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cf7bc3f..f62782d 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1210,6 +1210,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) { 
+
+    fprintf(stderr,"plc_loop_closure: Can't close gap of %g with %d edges of total length %g.\n",
+	    ftc,nEdges - (openL->cp[cp].nv-1),closureLength);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From 045102edee736a4f03a1da1eeeeb9e75ee67befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:08 +0000
Subject: [PATCH 55/57] fix: plc_random_equilateral_closed_polygon gave up
 after 10000 trials, too few for several hundred edges

---
 src/plcRandomPolygon.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index f62782d..6dcf3b7 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -889,6 +889,8 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
   bool distances_ok;
   int i;
   int safety_check = 0;
+  int max_trials = 10000 + (int)(100.0*n*sqrt((double)(n)));
+  /* The expected number of trials grows like n^(3/2) */
 
   assert(n <= 3000);
   if (n > 3000) {
@@ -929,15 +931,15 @@ plCurve *plc_random_equilateral_closed_polygon(gsl_rng *rng,int n)
 
       safety_check++;
 
-    } while (!distances_ok && safety_check < 10000);
+    } while (!distances_ok && safety_check < max_trials);
 
     /* Now we've generated distances up to d[n-3] without violating
        a sum condition. We still have to check that 0 <= d[n-3] <= 2,
        so that we can set d[n-2]=1 without violating an inequality. */
 
-  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < 10000);
+  } while((d[n-3] < 0 || d[n-3] > 2) && safety_check < max_trials);
 
-  assert(safety_check < 10000);
+  assert(safety_check < max_trials);
 
   /* We can now set the last distance to be 1.0 */
 
-- 
2.43.0


From 0b9825677f78c048d897c373b981b580ff38dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 56/57] fix: octrope_struts converted an infinite quotient to
 int on straight curves

---
 src/octrope.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..b1693ba 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -33,6 +33,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 
 #include <math.h>
 #include <float.h>
+#include <limits.h>
 #include <ctype.h>
 #include <stdarg.h>
 
@@ -1651,7 +1652,7 @@ int octrope_struts(plCurve *L,
      we can get pi_count = 1 from this computation. Hilarity ensues. So 
      we make sure that pi_count >= 2 afterwards. */
 
-  pi_count = floor(acos(-1)/max_turn); 
+  pi_count = (acos(-1)/max_turn < INT_MAX) ? floor(acos(-1)/max_turn) : INT_MAX; /* straight curves */
   if (pi_count < 2) { pi_count = 2; }  
 
 #ifdef DEBUG
-- 
2.43.0


From 964ecfcbaadf01f17bdd9a15e19872b8b4b8d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 57/57] fix: octrope_strutfile_read accepted negative component
 and vertex numbers

---
 src/octrope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index b1693ba..f094bc5 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2192,7 +2192,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2204,7 +2205,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0

