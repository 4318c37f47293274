From d1f340246976cb660e858ea2626f1d024ed96cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 01/69] fix: bounding box of a sphere must not shrink the
 maximum

A sphere below the current maximum lowered it, so the topmost layers
of the model were lost.
---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..4de6ad3 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -474,7 +474,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From 853f5faa1b41de76ad93194598f22e9143c02040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 02/69] fix: bounding box of an intersection must include its
 first operand

The first operand was skipped, so the layer stack depended on the order
of the children, and an empty intersection changed the bounding box.
---
 src/hob3l/csg3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4de6ad3..829d18b 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2379,12 +2379,12 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
             if (!cp_vec3_minmax_valid(&bb2)) {
-                break;
+                return;
             }
         }
         cp_vec3_minmax_or(bb, bb, &bb2);
-- 
2.43.0


From c99f9ba7d016add949331fe876b9c910b5302e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 03/69] fix: apply the surrounding transformations to the
 result of hull()

---
 src/hob3l/csg3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 829d18b..8dc4eba 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1762,10 +1762,9 @@ static bool csg3_from_hull(
     ctxt_t c2 = *c;
     cp_v_obj_p_t rc = {0}; /* FIXME: temporary should be in pool */
 
-    /* start with fresh matrix in 2D space */
-    local_t mn = *m;
-    mn.mat = the_unit(c->tree);
-    if (!csg3_from_v_scad(no, &rc, &c2, &mn, &s->child)) {
+    /* affine transformation and convex hull commute, so just continue with the
+     * current matrix */
+    if (!csg3_from_v_scad(no, &rc, &c2, m, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
     }
-- 
2.43.0


From bd0528b2c67ed1c2bbf91e2e68e3f01559677c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 04/69] fix: apply the surrounding transformations to the
 result of projection()

---
 src/hob3l/csg3.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 8dc4eba..a50d3aa 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1187,16 +1187,33 @@ static bool csg3_from_projection(
 
     cp_csg2_tree_add_layer(c->tmp, csg2, 0);
 
-    cp_csg2_t *root = csg2->root;
-    assert(root != NULL);
+    assert(csg2->root != NULL);
+    cp_v_obj_p_t rc = {0};
+    cp_v_push(&rc, cp_obj(csg2->root));
+
+    /* flatten into a single polygon */
+    cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, &rc, CP_CSG2_BOOL_MODE_PATH);
 
     /* sweep (FIXME: should all be allocated in c2.tmp) */
     CP_DELETE(csg2);
     CP_DELETE(csg3->root);
     CP_DELETE(csg3);
+    if (c->err->msg.size > 0) {
+        return false;
+    }
+    cp_pool_clear(c->tmp);
+    cp_v_fini(&rc);
+
+    /* empty? */
+    if ((p == NULL) || (p->path.size == 0)) {
+        return true;
+    }
+
+    /* move into the coordinate system of the surrounding 2D structure */
+    xform_2d(m, p);
 
     /* return result */
-    cp_v_push(r, cp_obj(root));
+    cp_v_push(r, cp_obj(p));
     return true;
 }
 
-- 
2.43.0


From c53fd9e940c8f9b62fdb36635b141e2a59ffe7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 05/69] fix: linear_extrude: use the clamped scale

With --empty=warn or ignore, a negative scale is to be taken as 0, but
the original value was used for the intermediate layers.
---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a50d3aa..6edd03f 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1723,7 +1723,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From 4ade9feb3cbc2836b85696807ea7c9fcf2470d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 06/69] fix: intersection: an empty operand makes the
 intersection empty

A non-ignored child that yields no shape was dropped from the operands
(and hit an assertion if it was the last one) instead of emptying the
result.
---
 src/hob3l/csg3.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 6edd03f..d48bf58 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -217,17 +217,16 @@ static bool csg3_from_difference(
 
 static void csg3_cut_push_add(
     cp_v_csg_add_p_t *cut,
-    cp_v_obj_p_t *add)
+    cp_v_obj_p_t *add,
+    cp_loc_t loc)
 {
-    if (add->size > 0) {
-        cp_csg_add_t *a = cp_csg_new(*a, cp_v_nth(add,0)->loc);
+    cp_csg_add_t *a = cp_csg_new(*a, loc);
 
-        a->add = *add;
+    a->add = *add;
 
-        cp_v_push(cut, a);
+    cp_v_push(cut, a);
 
-        CP_ZERO(add);
-    }
+    CP_ZERO(add);
 }
 
 static bool csg3_from_intersection(
@@ -242,21 +241,30 @@ static bool csg3_from_intersection(
     /* each child is a union */
     cp_v_obj_p_t add = CP_V_INIT;
     for (cp_v_each(i, &s->child)) {
-        csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        /* A child that is not ignored is an operand even if it is empty. */
+        bool add_no = false;
+        if (!csg3_from_scad(&add_no, &add, c, m, cp_v_nth(&s->child, i))) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no || (add.size > 0)) {
+            csg3_cut_push_add(&cut, &add, cp_v_nth(&s->child, i)->loc);
+        }
+        if (add_no) {
+            *no = true;
+        }
     }
 
     if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
         return true;
     }
 
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        cp_v_fini(&cp_v_nth(&cut, 0)->add);
+        cp_v_fini(&cut);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From e8827d8bdb09341bc4f83ab38c695028f0a49132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 07/69] fix: an unknown parameter must not discard the
 remaining ones

If unknown parameters are not errors (the default), everything after
one was skipped: more parameters as well as the check for missing ones,
so that, e.g., polygon(foo=1) dereferenced a NULL pointer.
---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..2ce9675 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -741,8 +741,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From 587b81ed80bd0202b9741adbdf76b484191319d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 08/69] fix: multmatrix: reject a non-array instead of failing
 an assertion

---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 2ce9675..baecfbe 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
-- 
2.43.0


From 74df85c7c20ffc35a2292576f1ddeb109ba4a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 09/69] fix: multmatrix: accept rows with two entries as
 documented

---
 src/hob3l/scad.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index baecfbe..a150093 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From fa6c88a2c070e0dd12398374f40d208d134bc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 10/69] fix: automatic grid: consider subtracted parts

A large subtracted shape caused a numeric overflow error, because only
the remaining shapes were considered when selecting the grid.
---
 src/hob3l/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..6347c6b 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -265,9 +265,10 @@ static bool do_file(
 
     /* Auto-scale so that 23 bits are used in integer arith, so that no
      * rounding error occurs when converting to `float` (for binary STL).
+     * Subtracted parts are converted to integers, too, so they have to fit.
      */
-    if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb);
+    if (cp_vec3_minmax_valid(&full_minmax)) {
+        auto_dim_scale(opt, &full_minmax);
     }
 
     /* stage 4: 2D CSG */
-- 
2.43.0


From e4468344348153a4ae6239abfe5004ec23bfba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 11/69] fix: a batch reduced to one polygon must still be
 evaluated if its function is constant false

---
 src/hob3l/csg2-bool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-bool.c b/src/hob3l/csg2-bool.c
index 1887fe4..c46b467 100644
--- a/src/hob3l/csg2-bool.c
+++ b/src/hob3l/csg2-bool.c
@@ -86,7 +86,7 @@ static void flatten_eager(
     if (r->size == 0) {
         return;
     }
-    if (r->size == 1) {
+    if ((r->size == 1) && ((r->comb.b[0] & 3) == 2)) {
         assert(r->data[0] != NULL);
         if (r->data[0]->type == CP_CSG2_SWEEP) {
             return;
-- 
2.43.0


From 27eff354ecc5ce6a443f2c1e165be350ba284809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 12/69] fix: reject negative cylinder and circle radii as
 documented

A cylinder with one negative radius and a circle with a negative radius
were rendered, although the documentation demands r1, r2 >= 0 and r > 0.
---
 src/hob3l/csg3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index d48bf58..319d83c 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1361,7 +1361,7 @@ static bool csg3_from_circle(
     *no = true;
 
     /* size 0 in any direction is an error */
-    if (cp_eq(s->r, 0)) {
+    if (cp_le(s->r, 0)) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty circle, but r="FF".\n",
             s->r);
@@ -1534,7 +1534,7 @@ static bool csg3_from_cylinder(
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but h="FF".\n", s->h);
     }
-    if (cp_le(r1, 0) && cp_le(r2, 0)) {
+    if (cp_lt(r1, 0) || cp_lt(r2, 0) || (cp_le(r1, 0) && cp_le(r2, 0))) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but r1="FF", r2="FF".\n",
             r1, r2);
-- 
2.43.0


From feafeef25adc460ea27f55cfd3554b88c0e90cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 13/69] fix: reject unknown colour names instead of crashing

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From a579058e2e84939ed6ad2c4d782cbe5ad6b60d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 14/69] fix: colour names are case insensitive as documented

---
 src/hob3l/gc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index cc777a7..5487585 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -79,8 +79,15 @@ extern bool cp_color_by_name(
         return true;
     }
 
-    /* by name */
-    color_value_t const *c = color_find(name, len);
+    /* by name: case insensitive, the table has lower case names */
+    char low[sizeof(((color_value_t*)0)->name)];
+    if (len >= sizeof(low)) {
+        return false;
+    }
+    for (size_t i = 0; i <= len; i++) {
+        low[i] = ((name[i] >= 'A') && (name[i] <= 'Z')) ? (char)(name[i] - 'A' + 'a') : name[i];
+    }
+    color_value_t const *c = color_find(low, len);
     if (c == NULL) {
         return false;
     }
-- 
2.43.0


From 132482b71d1e0c3320cffce210079bb4abbd4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 15/69] fix: reject rotation about a zero vector as documented

---
 src/hob3l/csg3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 319d83c..93ad4a0 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -393,6 +393,10 @@ static bool csg3_from_rotate(
     local_t const *mo,
     cp_scad_rotate_t const *s)
 {
+    if (s->around_n && cp_vec3_has_len0(&s->n)) {
+        return msg(c, CP_ERR_FAIL, s->loc, NULL, "Rotation axis vector has length zero.\n");
+    }
+
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (s->around_n) {
         cp_mat3wi_rot_v(m1, &s->n, &CP_SINCOS_DEG(s->a));
-- 
2.43.0


From 64d6781cb803dbeae45d47773f3be6dc4f41aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 16/69] fix: error at the start of a line could be reported for
 the previous line

The line lookup took the start of the next line as part of this line, so
depending on the number of lines, a location in column 1 was reported
with the wrong line number, no column, and the wrong source text.
---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From b9cdbe73b93a7fa7b7eeed657a12749c2b848301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 17/69] fix: missing side walls where an outline touches itself

The triangulation compared vertices to find outline edges, but where an
outline touches itself, a loop contains a point more than once and the
triangle may use another vertex than the edge.  The edge was then not
marked as outline and the STL output was not 2-manifold.
---
 src/hob3lop/op-trianglify.c | 38 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/hob3lop/op-trianglify.c b/src/hob3lop/op-trianglify.c
index c51a5cd..5da9b3b 100644
--- a/src/hob3lop/op-trianglify.c
+++ b/src/hob3lop/op-trianglify.c
@@ -65,30 +65,34 @@ static inline edge_t *tri_edge_new(
     return e;
 }
 
+/**
+ * Whether the edge of \p v is an outline edge from \p v to the point of \p q.
+ */
+static inline bool vertex_outline_to(
+    vertex_t *v,
+    vertex_t *q)
+{
+    return (other_end(v)->point_idx == q->point_idx) && !edge_of(v)->inner;
+}
+
 static bool edge_is_outline(
     vertex_t *p,
     vertex_t *q)
 {
-    edge_t *e = edge_of(p);
-    if (e == edge_of(q)) {
-        return !e->inner;
+    /* Compare points instead of vertices: where the outline touches itself,
+     * a loop may contain the same point more than once, so the triangle may use
+     * another vertex than the outline edge does. */
+    if (vertex_outline_to(p, q) || vertex_outline_to(q, p)) {
+        return true;
     }
-    vertex_t *w = vertex_eq_buddy(q);
-    if (w && (e == edge_of(w))) {
-        return !e->inner;
+    vertex_t *pb = vertex_eq_buddy(p);
+    if (pb && vertex_outline_to(pb, q)) {
+        return true;
     }
-
-    p = vertex_eq_buddy(p);
-    if (p) {
-        e = edge_of(p);
-        if (e == edge_of(q)) {
-            return !e->inner;
-        }
-        if (w && (e == edge_of(w))) {
-            return !e->inner;
-        }
+    vertex_t *qb = vertex_eq_buddy(q);
+    if (qb && vertex_outline_to(qb, p)) {
+        return true;
     }
-
     return false;
 
 #if 0
-- 
2.43.0


From 6e9cf0c900c4d0042fc82dd5bcec2849d0763efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 18/69] fix: making a heap left the vector one element too long

---
 src/hob3lbase/heap.c | 1 +
 src/hob3lbase/vec.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..82a8564 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From b3067f004e4b32ed6e591256e9443f985f88c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 19/69] fix: inserting a part of a vector into the same vector
 failed an assertion

---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 82a8564..70bcea9 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(dst_pos < src_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From 336710a050df377684b51dec6bea959f5623ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 20/69] fix: printing into a string via a stream passed the
 argument list as an argument

---
 include/hob3lbase/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hob3lbase/stream.h b/include/hob3lbase/stream.h
index 80f5f41..be587b5 100644
--- a/include/hob3lbase/stream.h
+++ b/include/hob3lbase/stream.h
@@ -25,7 +25,7 @@
 #define CP_STREAM_FROM_VCHAR(vchar) \
     (&(cp_stream_t){ \
         .data = (vchar), \
-        .vprintf = (cp_stream_vprintf_t)cp_vchar_printf, \
+        .vprintf = (cp_stream_vprintf_t)cp_vchar_vprintf, \
         .write = (cp_stream_write_t)cp_vchar_append_arr, \
     })
 
-- 
2.43.0


From ee840614b39001116827fcce80cfcda992054e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 21/69] fix: UTF-8 continuation bytes were added with their
 marker bit

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From a7646d8084c2305532a9adee94b24a1bea044778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 22/69] fix: a NUL byte was taken for the end of the SCAD file

---
 src/hob3l/syn.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..1cb2d1b 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -128,6 +128,15 @@ static void lex_next(parse_t *p)
     p->c.lex.cur = *p->c.lex.string;
 }
 
+/**
+ * Whether the end of the file is reached (cur is also NUL if the
+ * file contains a NUL byte).
+ */
+static bool lex_at_end(parse_t *p)
+{
+    return p->c.lex.string >= p->c.lex.end;
+}
+
 static void tok_next_aux2(parse_t *p)
 {
     /* do not scan beyond an error */
@@ -265,7 +274,7 @@ static void tok_next_aux2(parse_t *p)
     /* line comment */
     if ((p->c.lex.cur == '/') && (p->c.lex.string[1] == '/')) {
         p->c.tok.type = T_LCOM;
-        while ((p->c.lex.cur != '\n') && (p->c.lex.cur != '\0')) {
+        while ((p->c.lex.cur != '\n') && !lex_at_end(p)) {
             lex_next(p);
         }
         /* do not eat '\n', it will be consumed as white space anyway. */
@@ -279,7 +288,7 @@ static void tok_next_aux2(parse_t *p)
         lex_next(p);
         char prev = 0;
         while ((prev != '*') || (p->c.lex.cur != '/')) {
-            if (p->c.lex.cur == '\0') {
+            if (lex_at_end(p)) {
                 if (!have_err_msg(p)) {
                     cp_vchar_printf(&p->err->msg, "File ends inside comment.\n");
                 }
@@ -294,6 +303,15 @@ static void tok_next_aux2(parse_t *p)
         return;
     }
 
+    /* a NUL byte must not be mistaken for the end of the file */
+    if ((p->c.lex.cur == '\0') && !lex_at_end(p)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg, "NUL characters are not supported.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
+
     /* by default, read a single character */
     if (!(p->c.lex.cur == (p->c.lex.cur & 127))) {
         if (!have_err_msg(p)) {
-- 
2.43.0


From 2188b18ef608683272d8168f3f41d221021a84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 23/69] fix: --dump-syn lost modifiers and printed blocks as
 calls

---
 src/hob3l/syn-2scad.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hob3l/syn-2scad.c b/src/hob3l/syn-2scad.c
index 6a0fed3..5c5dbce 100644
--- a/src/hob3l/syn-2scad.c
+++ b/src/hob3l/syn-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 #include <hob3l/syn.h>
+#include <hob3l/gc.h>
 #include "internal.h"
 
 static void cp_syn_stmt_put_scad(
@@ -84,6 +85,16 @@ static void cp_syn_stmt_item_put_scad(
     cp_syn_stmt_item_t *f)
 {
     cp_printf(s, "%*s", d, "");
+    cp_gc_modifier_put_scad(s, f->modifier);
+    if (strequ(f->functor, "{")) {
+        /* a block: has neither functor nor arguments */
+        cp_printf(s, "{\n");
+        for (cp_v_each(i, &f->body)) {
+            cp_syn_stmt_item_put_scad(s, d+IND, f->body.data[i]);
+        }
+        cp_printf(s, "%*s}\n", d, "");
+        return;
+    }
     if (f->functor != NULL) {
         cp_printf(s, "%s(", f->functor);
         for (cp_v_each(i, &f->arg)) {
-- 
2.43.0


From e0a421b853baa483b0834133122fff5b4639f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 24/69] fix: a string escape lacking its last digit was
 accepted

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..4c8df3d 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -197,6 +196,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
             break;
         }
         iter_advance(iter);
+        --len;
         code = (code * base) + val;
     }
     if (len > 0) {
-- 
2.43.0


From 70d20851ab342b23a31a698f19f4a4a0cf2883ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 25/69] fix: an include at the top level of a file was rejected

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 1cb2d1b..f2f235c 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -936,7 +936,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From a842622cd868f71f987f68b2f2d3537e336f99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 26/69] fix: an object collapsed by scale or multmatrix counted
 as an ignored child

---
 src/hob3l/csg3.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 93ad4a0..80acfc0 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -333,6 +333,21 @@ static bool good_scale2(
         !cp_eq(v->y, 0);
 }
 
+/**
+ * Objects under a transformation that collapses them have an empty shape, but
+ * whether they are ignored still depends on the objects themselves.
+ */
+static bool csg3_collapse(
+    bool *no,
+    cp_v_obj_p_t *r,
+    ctxt_t *c,
+    local_t const *m,
+    cp_v_scad_p_t const *ss)
+{
+    cp_v_obj_p_t rc = {0};
+    return csg3_from_v_scad(no, (c->search_root != NULL) ? r : &rc, c, m, ss);
+}
+
 static bool csg3_from_scale(
     bool *no,
     cp_v_obj_p_t *r,
@@ -341,8 +356,10 @@ static bool csg3_from_scale(
     cp_scad_scale_t const *s)
 {
     if (!good_scale(&s->v)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL,
-           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v));
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL,
+               "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v)) &&
+            csg3_collapse(no, r, c, mo, &s->child);
     }
     cp_mat3wi_t *m1 = mat_new(c->tree);
     cp_mat3wi_scale_v(m1, &s->v);
@@ -362,7 +379,9 @@ static bool csg3_from_multmatrix(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &s->m)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n") &&
+            csg3_collapse(no, r, c, mo, &s->child);
     }
     cp_mat3wi_mul(m1, mo->mat, m1);
 
-- 
2.43.0


From 269550e89755bd449e2164fc92ccd3725c02a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 27/69] fix: a 2D object outside a 2D context counted as an
 ignored child

---
 src/hob3l/csg3.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 80acfc0..7423d3d 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1041,11 +1041,12 @@ static bool csg3_from_text(
     local_t const *mo CP_UNUSED,
     cp_scad_text_t const *s)
 {
+    *no = true;
+
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL,
             "'text' found outside 2D context.");
     }
-    *no = true;
 
 #ifdef WITH_FONT
     cp_font_gc_t gc = {0};
@@ -1255,10 +1256,11 @@ static bool csg3_from_polygon(
     local_t const *m,
     cp_scad_polygon_t const *s)
 {
+    *no = true;
+
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'polygon' found outside 2D context.");
     }
-    *no = true;
 
     if (s->points.size < 3) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
@@ -1378,10 +1380,11 @@ static bool csg3_from_circle(
     local_t const *mo,
     cp_scad_circle_t const *s)
 {
+    *no = true;
+
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'circle' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (cp_le(s->r, 0)) {
@@ -1438,10 +1441,11 @@ static bool csg3_from_square(
     local_t const *mo,
     cp_scad_square_t const *s)
 {
+    *no = true;
+
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'square' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (!good_scale2(&s->size)) {
-- 
2.43.0


From 6f683ce776c8c1268bc361b6435693b60ac20696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 28/69] fix: operands of a difference were not checked if the
 first one was empty

---
 src/hob3l/csg3.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 7423d3d..f3eac99 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -159,11 +159,6 @@ static bool csg3_from_difference(
         *no = true;
     }
 
-    if (f.size == 0) {
-        /* empty, ignore */
-        return true;
-    }
-
     if ((f.size == 1) && (cp_v_nth(&f, 0)->type == CP_CSG_SUB)) {
         cp_v_push(r, cp_v_nth(&f, 0));
 
@@ -196,10 +191,11 @@ static bool csg3_from_difference(
         }
     }
 
-    if (g.size == 0) {
-        /* no more children => nothing to subtract => push f to output */
+    if ((f.size == 0) || (g.size == 0)) {
+        /* nothing to subtract from or nothing to subtract => push f to output */
         cp_v_append(r, &f);
         cp_v_fini(&f);
+        cp_v_fini(&g);
         return true;
     }
 
-- 
2.43.0


From 9f13c2e32fefe64811008460ab25d3b94b75580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 29/69] fix: without an input file, a null pointer was passed
 to fopen

---
 src/hob3l/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 6347c6b..18b4bd5 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -706,6 +706,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: No input file given.  Try '-h'.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
-- 
2.43.0


From 6a8ff44d32bc01ef283c8ab26478ffde12a01b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 30/69] fix: numbers beyond the range of double ran into
 assertions

---
 src/hob3l/stl-parse.c | 4 ++++
 src/hob3l/svg-parse.c | 1 +
 src/hob3l/syn.c       | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..79f1028 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -334,6 +334,10 @@ static bool parse_float(
     cp_f_t *v)
 {
     *v = strtod(p->tok_string, NULL);
+    if ((p->tok_type == T_FLOAT) && !cp_isfinite(*v)) {
+        cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->tok_string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..b459708 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -941,6 +941,7 @@ static bool s_double(
     char *ep = NULL;
     double r = strtod(*sp, &ep);
     TRY(ep == se);
+    TRY(cp_isfinite(r));
     *rp = r;
     *sp = se;
     return true;
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index f2f235c..073219d 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -534,6 +534,10 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if ((p->c.tok.type == T_FLOAT) && !cp_isfinite(r->value)) {
+        cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->c.tok.string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From 6b306a37a328fe7d5adf8b76d400814010ae5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 31/69] fix: PS output crashed on stacks without a first layer

---
 src/hob3l/csg2-2ps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..9796bef 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -214,6 +214,9 @@ static void layer_put_ps(
     if (zi != r->zi) {
         return;
     }
+    if (cp_csg_add_size(r->root) == 0) {
+        return;
+    }
     v_csg2_put_ps(k, t, zi, &r->root->add);
 }
 
-- 
2.43.0


From dd0618cc08aed558549513fa621b7e453e147418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 32/69] fix: recursive includes exhausted the stack

---
 src/hob3l/syn.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 073219d..7fd5961 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -32,6 +32,9 @@
 #define K_MODULE    (_T_KEY + 3) /* 'module' */
 #define K_FUNCTION  (_T_KEY + 4) /* 'function' */
 
+/** Maximum nesting depth of included files */
+#define INCLUDE_MAX 200
+
 typedef struct {
     char cur;
     char *string;
@@ -55,6 +58,7 @@ typedef struct {
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    size_t depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -861,6 +865,11 @@ static bool parse_include_push_stmt_item(
     cp_v_syn_stmt_item_p_t *r,
     char const *fn)
 {
+    if (p->depth >= INCLUDE_MAX) {
+        cp_vchar_printf(&p->err->msg, "Files are included recursively or too deeply: '%s'.\n", fn);
+        p->err->loc = p->c.tok.loc;
+        return false;
+    }
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, p->err, p->input, p->c.tok.loc, fn, NULL)) {
         assert(p->err->msg.size > 0);
@@ -869,6 +878,7 @@ static bool parse_include_push_stmt_item(
     expect(p, T_PATH);
 
     parse_ctxt_t prev = begin_file(p, file);
+    p->depth++;
 
     if (!parse_stmt_item_list(p, r)) {
         return false;
@@ -880,6 +890,7 @@ static bool parse_include_push_stmt_item(
         return false;
     }
 
+    p->depth--;
     end_file(p, &prev);
     return true;
 }
-- 
2.43.0


From 08eca8d3ae6a505b9870c7b65008a175c7876eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 33/69] fix: input files were never closed, so that many
 imports failed

---
 src/hob3l/syn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 7fd5961..2c558e2 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1018,7 +1018,8 @@ static bool read_file(
     }
 
     cp_vchar_printf(&f->filename, "%s%s", cp_vchar_cstr(&dir), filename);
-    if (file == NULL) {
+    bool opened = (file == NULL);
+    if (opened) {
         (void)cp_vchar_cstr(&f->filename);
         file = fopen(f->filename.data, "rb");
         if (file == NULL) {
@@ -1050,6 +1051,10 @@ static bool read_file(
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    if (opened) {
+        (void)fclose(f->file);
+        f->file = NULL;
+    }
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 69815cb59e89761419a23a714eb76c02b449e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 34/69] fix: text STL files without a solid name were not read

The line after 'solid' was taken as the name if there was none.
---
 src/hob3l/stl-parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 79f1028..a6d84c7 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,7 +180,12 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
+    /* The first character of the rest of the line was overwritten by the
+     * end of string marker of the previous token.  Skip it, but stay in
+     * the line if it is empty. */
+    if (p->lex_cur != '\n') {
+        lex_next(p);
+    }
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
-- 
2.43.0


From 65fe6dd37e3d7dfdc18b7dece90ddbb260e506e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 35/69] fix: the line after 'endsolid' in text STL was ignored

The solid name after 'endsolid' was scanned as a token first, so a missing
name swallowed the next line, and a name in 8-bit characters was an error.
---
 src/hob3l/stl-parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index a6d84c7..477fe0b 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -451,9 +451,10 @@ static bool parse_solid(
             return false;
         }
     }
-    if (!expect_err(p, K_ENDSOLID)) {
-        return false;
+    if (p->tok_type != K_ENDSOLID) {
+        return expect_err(p, K_ENDSOLID);
     }
+    /* the rest of the line is the name, which may be anything */
     tok_next_line(p);
     tok_next(p);
 
-- 
2.43.0


From f37a1beba64aa0f103222897330139640791f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 36/69] fix: malformed numbers in text STL were read as some
 number

E.g. '-' or '.' were zero, and '1e' was one.
---
 src/hob3l/stl-parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 477fe0b..c5d1330 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -338,7 +338,12 @@ static bool parse_float(
     parse_t *p,
     cp_f_t *v)
 {
-    *v = strtod(p->tok_string, NULL);
+    char *end = NULL;
+    *v = strtod(p->tok_string, &end);
+    if ((p->tok_type == T_FLOAT) && ((end == p->tok_string) || (*end != '\0'))) {
+        cp_vchar_printf(&p->err->msg, "Malformed number: '%s'.\n", p->tok_string);
+        return false;
+    }
     if ((p->tok_type == T_FLOAT) && !cp_isfinite(*v)) {
         cp_vchar_printf(&p->err->msg, "Number is too large: '%s'.\n", p->tok_string);
         return false;
-- 
2.43.0


From 7bfd5a898c1aedb5e3faf9869257ebd70866ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 37/69] fix: binary STL coordinates that are not finite crashed
 the slicer

---
 src/hob3l/stl-parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index c5d1330..75c550a 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -585,6 +585,13 @@ static bool bin_vertex(parse_t *p, cp_vec3_dict_node_t **n)
     if (!bin_vec3(p, &v)) {
         return false;
     }
+    for (cp_size_each(i, 3)) {
+        if (!cp_isfinite(v.v[i])) {
+            p->err->loc = loc;
+            cp_vchar_printf(&p->err->msg, "STL vertex coordinate is not a finite number.\n");
+            return false;
+        }
+    }
 
     *n = cp_vec3_dict_insert(p->tmp, &p->point, &v, loc);
     return true;
-- 
2.43.0


From 3e60c6c5a13ddd850a8067e69fd520d55a8d00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 38/69] fix: XML comments before an end tag, and unterminated
 ones

---
 src/hob3l/xml-parse.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..00ce37e 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -439,6 +439,9 @@ static bool skip_comment(
     parse_t *p)
 {
     for (;;) {
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Premature end of file inside <!--...");
+        }
         if ((p->cur == '-') && (*p->str_next == '-')) {
             TRY(expect(p, "-->"));
             return true;
@@ -462,7 +465,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -470,12 +472,6 @@ again:
 
     if (p->cur == '<') {
         TRY(lex_next(p));
-        /* comment */
-        if  (p->cur == '!') {
-            TRY(expect(p, "!--"));
-            TRY(skip_comment(p));
-            goto again;
-        }
 
         /* element */
         return parse_elem(rp, p, c);
@@ -495,6 +491,13 @@ static bool parse_content_list(
     char const *tag)
 {
     for (;;) {
+        /* comment */
+        if ((p->cur == '<') && (*p->str_next == '!')) {
+            TRY(expect(p, "<!--"));
+            TRY(skip_comment(p));
+            continue;
+        }
+
         /* end tag */
         if ((tag != NULL) && (p->cur == '<') && (*p->str_next == '/')) {
             TRY(lex_next(p) && lex_next(p));
-- 
2.43.0


From 25e4cf9929317863ecfeddfb3c5ea54adcf6d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 39/69] fix: XML: reject empty names, bad character numbers,
 xmlns without a value

---
 src/hob3l/xml-parse.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 00ce37e..e3f1068 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -14,8 +14,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -203,8 +201,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
@@ -247,6 +245,7 @@ static unsigned digit_val(unsigned c)
 
 static bool read_num(unsigned *np, parse_t *p, unsigned base)
 {
+    cp_loc_t loc = p->loc;
     unsigned n = 0;
     for (;;) {
         unsigned val = digit_val(p->cur);
@@ -254,8 +253,14 @@ static bool read_num(unsigned *np, parse_t *p, unsigned base)
             break;
         }
         n = (n * base) + val;
+        if (n > 0x10ffff) {
+            ERR(p, loc, "Character number is too large.");
+        }
         TRY(lex_next(p));
     }
+    if (n == 0) {
+        ERR(p, loc, "Expected a character number.");
+    }
     *np = n;
     return true;
 }
@@ -421,6 +426,12 @@ static bool parse_attr_list(
         }
         assert(attr->next == NULL);
 
+        if ((attr->child == NULL) &&
+            strequ((attr->ns_prefix != NULL) ? attr->ns_prefix : attr->data, "xmlns"))
+        {
+            ERR(p, attr->loc, "Expected a value for the namespace.");
+        }
+
         if ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) {
             attr->next = c->ns_map;
             c->ns_map = attr;
-- 
2.43.0


From 681dc009f284cdcf760f66c31acb0d3820bf257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 40/69] fix: XML comments before <!DOCTYPE

---
 src/hob3l/xml-parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index e3f1068..1841c91 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -630,6 +630,13 @@ static bool parse_doc(
     }
     TRY(skip_space(p));
 
+    /* comments may come before <!DOCTYPE */
+    while ((p->cur == '<') && strpref(p->str_next, "!--")) {
+        TRY(expect(p, "<!--"));
+        TRY(skip_comment(p));
+        TRY(skip_space(p));
+    }
+
     /* parse <!DOCTYPE ...>; allow and ignore this */
     if ((p->cur == '<') && strpref(p->str_next, "!DOCTYPE")) {
         TRY(expect(p, "<!DOCTYPE"));
-- 
2.43.0


From f412be0c6ae3ea693555003847b8a3792e51b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 41/69] fix: SVG: an id selects a layer also without a
 transform attribute

---
 src/hob3l/svg-parse.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index b459708..a30cc91 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1453,15 +1453,11 @@ static void process_std_attr(
 {
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
-    if (s == NULL) {
-        return;
-    }
-    s_sep(&s, SPACE);
-    while (*s != 0) {
-        if (!xform_cmd(c, n, p, &s)) {
-            return;
+    if (s != NULL) {
+        s_sep(&s, SPACE);
+        while ((*s != 0) && xform_cmd(c, n, p, &s)) {
+            s_sep(&s, COMMA);
         }
-        s_sep(&s, COMMA);
     }
 
     /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-- 
2.43.0


From 7e604e481985b7dc433037ab95981736d57a1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 42/69] fix: SVG: read the second coordinate also if the first
 one is missing

---
 src/hob3l/svg-parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index a30cc91..a09ee6b 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1106,9 +1106,9 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    bool have_x = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool have_y = s_attr_dim(yp, xml, namey, c->height, 1);
+    return have_x && have_y;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From dec7af21d114b413f1a2f4326a962cbe97a594a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 43/69] fix: SVG: exponents with a sign

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index a09ee6b..f6bfd90 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -917,7 +917,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From e8a7a4c727b128462c6157b847f910d954fd026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 44/69] fix: SVG: arc flags other than 0 and 1 are errors

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index f6bfd90..1694c3e 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -963,7 +963,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From 89e72ae1d5b716d9d725e72a7a5d93042da974b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 45/69] fix: SVG: closing a path directly after a moveto stays
 there

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 1694c3e..1242c6a 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -461,6 +461,8 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From 6f0a82f76e97be75321f0537a7b591d849f21818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 46/69] fix: SVG: no reflection of control points across an
 empty segment

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 1242c6a..ae15425 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -403,6 +403,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        p->prev_cmd = 0;
         return;
     }
     path_start(p, loc);
@@ -666,6 +667,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        p->prev_cmd = 0;
         return;
     }
 
-- 
2.43.0


From ecf6075add64575923029ef2d276dd52561d1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 47/69] fix: SVG: paths without any segment

---
 src/hob3l/svg-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index ae15425..dd8a29a 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,9 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        return;
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
-- 
2.43.0


From 4b67d5baff3657c1bc41da818dde016ba859ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 48/69] fix: SVG: preserveAspectRatio was followed only if it
 is absent

---
 src/hob3l/svg-parse.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index dd8a29a..195b3b2 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1034,7 +1034,12 @@ static void svg_xform(
     /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    bool none = (strstr(pas, "none") != NULL);
+    if (!none && ((align_x < 0) || (align_y < 0))) {
+        /* the default is xMidYMid */
+        align_x = align_y = 0.5;
+    }
+    bool do_align = !none;
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
@@ -1059,8 +1064,8 @@ static void svg_xform(
     cp_mat2wi_scale(m, scale_x, scale_y);
     m->n.w.x = xlat_x;
     m->n.w.y = xlat_y;
-    m->i.w.x = cp_div0(xlat_x, scale_x);
-    m->i.w.y = cp_div0(xlat_y, scale_y);
+    m->i.w.x = -cp_div0(xlat_x, scale_x);
+    m->i.w.y = -cp_div0(xlat_y, scale_y);
 }
 
 static char const *s_attr_str(
-- 
2.43.0


From cd1bb41cb2963bd1912f5cbfa3603074cd100224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 49/69] fix: SVG: the transform of a nested svg applies to its
 position, too

---
 src/hob3l/svg-parse.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 195b3b2..1adc68a 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1550,16 +1550,16 @@ static bool csg2_from_svg(
     c1.dpi = 96; /* in non-toplevel contexts, DPI is again 96 as in SVG */
     local_t const *c = &c1;
 
-    /* do the shift if this is not top-level */
+    /* standard attributes */
     double px, py;
     (void)s_attr_coord(&px, &py, c, x, "x", "y");
+    process_std_attr(&c, &c1, p, x);
+
+    /* do the shift if this is not top-level */
     if (!c0->toplevel) {
         xform_apply(&c, &c1, &CP_MAT2WI_XLAT(px, py));
     }
 
-    /* standard attributes */
-    process_std_attr(&c, &c1, p, x);
-
     /* if we have a viewBox, we'll apply the DPI setting unless
      * there is a size (which takes the unit into account) */
     if (have_viewBox && c0->toplevel) {
-- 
2.43.0


From 7781adc7bb67cc57b62b5d1d09932630c3b9179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 50/69] fix: SVG: page position and centering for every viewBox

---
 src/hob3l/svg-parse.c | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 1adc68a..4d62d33 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1567,8 +1567,24 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
     }
 
-    /* scale only if we have all params: we have no external size limit */
-    if (have_size && have_viewBox) {
+    if (have_viewBox) {
+        /* scale only if we have all params: we have no external size limit */
+        if (!have_size) {
+            ew = vw;
+            eh = vh;
+        }
+
+        /* apply centering, if requested (we're not clipping) */
+        if (c0->center) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-ew/2, +eh/2));
+        }
+
+        /* At top level, have a coordinate shift to put the SVG in
+         * positive coordinates */
+        if (c0->toplevel) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -eh));
+        }
+
         c1.width = vw;
         c1.height = vh;
         c1.dim = sqrt((vw*vw + vh*vh) / 2);
@@ -1578,25 +1594,6 @@ static bool csg2_from_svg(
         xform_apply(&c, &c1, &m1);
     }
 
-    /* apply centering, if requested and possible (we're not clipping, so we
-     * can do it late (i.e., only now)*/
-    if (c0->center) {
-        if (have_ew) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-vw/2, 0));
-        }
-        if (have_eh) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, +vh/2));
-        }
-    }
-
-    /* At top level, have a coordinate shift to put the SVG in
-     * positive coordinates */
-    if (c0->toplevel) {
-        if (have_viewBox) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -vh));
-        }
-    }
-
     /* recurse */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From 20a7c0d581539e48e0fb07e97b14ed2376a5465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 51/69] fix: SVG: circle and ellipse without any attribute

---
 src/hob3l/svg-parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 4d62d33..de45983 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1671,7 +1671,7 @@ static bool csg2_from_circle(
     (void)s_attr_dim(&rr, x, "r", c->dim, 1);
     if (rr <= 0) {
         char const *str = s_attr_str(x, "r");
-        WARN(p, str ? str : x->loc, "Illegal radius for circle.");
+        WARN(p, str ? str : (x ? x->loc : NULL), "Illegal radius for circle.");
         return false;
     }
 
@@ -1695,12 +1695,12 @@ static bool csg2_from_ellipse(
     (void)s_attr_size(&rx, &ry, c, x, "rx", "ry");
     if (rx <= 0) {
         char const *str = s_attr_str(x, "rx");
-        WARN(p, str ? str : x->loc, "Illegal x radius for ellipse.");
+        WARN(p, str ? str : (x ? x->loc : NULL), "Illegal x radius for ellipse.");
         return false;
     }
     if (ry <= 0) {
         char const *str = s_attr_str(x, "ry");
-        WARN(p, str ? str : x->loc, "Illegal y radius for ellipse.");
+        WARN(p, str ? str : (x ? x->loc : NULL), "Illegal y radius for ellipse.");
         return false;
     }
 
-- 
2.43.0


From 8b7d90f6bab8a13cdf1a12cb9e3ac2010326d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 52/69] fix: XML: white space around the = of an attribute

---
 src/hob3l/xml-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 1841c91..38dfc00 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -390,10 +390,12 @@ static bool parse_attr(
     r->ns_prefix = nsp;
 
     /* if no = follows, then we assume x="x" */
+    TRY(skip_space(p));
     if (p->cur != '=') {
         return true;
     }
     TRY(lex_next(p));
+    TRY(skip_space(p));
 
     /* expect " or ' */
     unsigned delim = p->cur;
-- 
2.43.0


From bb61789337177695d4bf81e17c61576e0f5896cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 53/69] fix: XML: the prefix xml needs no declaration

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 38dfc00..5ec90fa 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -552,6 +552,12 @@ static bool find_ns(
         }
     }
 
+    /* this one needs no declaration */
+    if (strequ(ns_prefix, "xml")) {
+        *nsp = "http://www.w3.org/XML/1998/namespace";
+        return true;
+    }
+
     ERR(p, ns_prefix, "Namespace prefix '%s' not found.\n", ns_prefix);
     return true;
 }
-- 
2.43.0


From dbf06478505cad3e5d0c79a3dc0d3cb5ba3c1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 54/69] fix: XML: a file that ends inside a name looped forever

---
 src/hob3l/xml-parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 5ec90fa..42d9d70 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -182,6 +182,7 @@ static bool is_tag_char(unsigned c)
         return true;
     }
     switch (c) {
+    case 0: /* end of file */
     case '!':  case '"': case '#':  case '$': case '%':  case '&': case '\'': case '(':
     case ')':  case '*': case '+':  case ',': case '/':  case ';': case '<':  case '=':
     case '>':  case '?': case '@':  case '[': case '\\': case ']': case '^':  case '`':
-- 
2.43.0


From 14fef9768ae6295c151a951d1e034f03fb148b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 55/69] fix: automatic grid ignored Z: tall models overflowed

---
 src/hob3l/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 18b4bd5..163053f 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -179,6 +179,13 @@ static void auto_dim_scale(
     }
 
     int best_shift = have_dig - absmax_dig;
+
+    /* Heights need to fit, too: slicing uses the same grid for Z. */
+    double absmaxz = cp_max(fabs(bb->min.z), fabs(bb->max.z));
+    int absmaxz_dig = 0;
+    (void)frexp(absmaxz, &absmaxz_dig);
+    best_shift = cp_min_i(best_shift, CQ_INT_DIG - absmaxz_dig);
+
     if (cp_eq(cq_dim_scale,0) || (default_shift > best_shift)) {
         cq_dim_scale = pow(2, best_shift);
     }
-- 
2.43.0


From e5a017a2cab4a888af82aebaabf35845bc78e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 56/69] fix: --gran below the epsilon was ignored

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 163053f..a1ce495 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -719,7 +719,7 @@ int main(int argc, char **argv)
     }
 
     /* post-process options */
-    if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
+    if (fabs(opt.cq_dim_scale_recip) > 0) { /* exact: it may well be smaller than epsilon */
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
-- 
2.43.0


From 95d873c94253d3166769f6af0e7f39dbaee353bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 57/69] fix: 2D shapes are combined on a grid they fit into,
 also with --grid=0

---
 src/hob3l/csg3.c | 76 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index f3eac99..a3488b7 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1169,6 +1169,55 @@ static void xform_2d(
     }
 }
 
+static void get_bb_v_csg3(
+    cp_vec3_minmax_t *bb,
+    cp_v_obj_p_t const *r,
+    bool max);
+
+/**
+ * Select a grid into which the given bounding box fits.
+ *
+ * The automatic grid is selected only after the whole 3D structure is
+ * complete, but 2D shapes need to be combined into a single polygon earlier
+ * than that.  The result is converted back to floating point coordinates, so
+ * any grid the shapes fit into will do.
+ *
+ * Returns the previous grid, so the caller can restore it.
+ */
+static double select_grid_2d(
+    cp_vec3_minmax_t const *bb)
+{
+    double old = cq_dim_scale;
+    if (cp_vec3_minmax_valid(bb)) {
+        double absmax = 0;
+        for (cp_size_each(i, 3)) {
+            absmax = cp_max(absmax, cp_max(fabs(bb->min.v[i]), fabs(bb->max.v[i])));
+        }
+        int dig = 0;
+        (void)frexp(absmax, &dig);
+        double fit = pow(2, CQ_INT_DIG - dig);
+        if (!(old > 0) || (old > fit)) {
+            cq_dim_scale = fit;
+        }
+    }
+    return old;
+}
+
+/**
+ * Flatten a set of 2D shapes into a single (multi-path) polygon.
+ */
+static cp_csg2_poly_t *flatten_2d(
+    ctxt_t *c,
+    cp_v_obj_p_t *root)
+{
+    cp_vec3_minmax_t bb = CP_VEC3_MINMAX_EMPTY;
+    get_bb_v_csg3(&bb, root, true);
+    double old = select_grid_2d(&bb);
+    cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, root, CP_CSG2_BOOL_MODE_PATH);
+    cq_dim_scale = old;
+    return p;
+}
+
 static bool csg3_from_projection(
     bool *no,
     cp_v_obj_p_t *r,
@@ -1206,6 +1255,10 @@ static bool csg3_from_projection(
     }
 
     /* cut out the slice */
+    cp_vec3_minmax_t bb = CP_VEC3_MINMAX_EMPTY;
+    cp_csg3_tree_minmax(&bb, csg3, true);
+    double old_scale = select_grid_2d(&bb);
+
     cp_range_t range;
     cp_range_init(&range, 0, 0, 0.1);
     range.cnt = 1;
@@ -1221,6 +1274,7 @@ static bool csg3_from_projection(
 
     /* flatten into a single polygon */
     cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, &rc, CP_CSG2_BOOL_MODE_PATH);
+    cq_dim_scale = old_scale;
 
     /* sweep (FIXME: should all be allocated in c2.tmp) */
     CP_DELETE(csg2);
@@ -1700,7 +1754,7 @@ static bool csg3_from_linext(
      * We still need a 3D 'xor' operation here, because there can be complete
      * enclosures.
      */
-    cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, &rc, CP_CSG2_BOOL_MODE_PATH);
+    cp_csg2_poly_t *p = flatten_2d(c, &rc);
     if (c->err->msg.size > 0) {
         return false;
     }
@@ -1825,7 +1879,7 @@ static bool csg3_from_hull(
      * FIXME: we could run another export directly from the cq_sweep_t
      * result here to get the hull.
      */
-    cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, &rc, CP_CSG2_BOOL_MODE_PATH);
+    cp_csg2_poly_t *p = flatten_2d(c, &rc);
     if (c->err->msg.size > 0) {
         return false;
     }
@@ -2068,7 +2122,7 @@ static bool csg3_from_rotext(
      *
      * FIXME: check whether this is broken and possibly repair this.
      */
-    cp_csg2_poly_t *p = cp_csg2_flatten(c->err, c->opt, c->tmp, &rc, CP_CSG2_BOOL_MODE_PATH);
+    cp_csg2_poly_t *p = flatten_2d(c, &rc);
     if (c->err->msg.size > 0) {
         return false;
     }
@@ -2457,11 +2511,27 @@ static void get_bb_sphere(
     csg3_sphere_minmax(bb, r->mat);
 }
 
+static void get_bb_poly2(
+    cp_vec3_minmax_t *bb,
+    cp_csg2_poly_t const *r)
+{
+    for (cp_v_each(i, &r->point)) {
+        cp_vec2_t const *p = &cp_v_nth(&r->point, i).coord;
+        cp_vec3_minmax(bb, &(cp_vec3_t){ .v = { p->x, p->y, 0 }});
+    }
+}
+
 static void get_bb_csg3(
     cp_vec3_minmax_t *bb,
     cp_csg3_t const *r,
     bool max)
 {
+    cp_csg2_poly_t const *r2 = cp_csg2_try_cast(*r2, r);
+    if (r2 != NULL) {
+        get_bb_poly2(bb, r2);
+        return;
+    }
+
     switch (r->type) {
     case CP_CSG_ADD:
         get_bb_add(bb, cp_csg_cast(cp_csg_add_t, r), max);
-- 
2.43.0


From b8e8dc0cd814f62d48f6419b95034555d7bf331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 58/69] fix: scaleV and xform of the JavaScript scene lost all
 but six digits

---
 src/hob3l/csg2-2js.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e3e5e02..3faa943 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -96,15 +96,15 @@ static void scene_flush(
             }
         }
         cp_printf(s, "},\n");
-        cp_printf(s, "   'scaleV':%16g,\n", 1000.0 * PT_GRAN);
+        cp_printf(s, "   'scaleV':%.16g,\n", 1000.0 * PT_GRAN);
         cp_printf(s, "   'scaleC':255,\n");
         cp_printf(s, "   'shiftI':%u,\n", SHIFT_I);
 
         if (c->tree->root_xform != NULL) {
             cp_mat3w_t const *n = &c->tree->root_xform->n;
             cp_printf(s,
-                "   'xform':[%16g,%16g,%16g,0, %16g,%16g,%16g,0, "
-                "%16g,%16g,%16g,0, %16g,%16g,%16g,1],\n",
+                "   'xform':[%.16g,%.16g,%.16g,0, %.16g,%.16g,%.16g,0, "
+                "%.16g,%.16g,%.16g,0, %.16g,%.16g,%.16g,1],\n",
                 n->b.m[0][0], n->b.m[1][0], n->b.m[2][0],
                 n->b.m[0][1], n->b.m[1][1], n->b.m[2][1],
                 n->b.m[0][2], n->b.m[1][2], n->b.m[2][2],
-- 
2.43.0


From a60624bbc0b7eb646ca5d3e21b1c77bbed4036b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 59/69] fix: --ps-scale-fit compared the y range with the x
 range

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 070763b8427688dfddefe30618930d5d13214a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 60/69] fix: cq_divmodx reported an overflow for quotients that
 fit

---
 src/hob3lop/matq.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/hob3lop/matq.c b/src/hob3lop/matq.c
index 079f774..6419075 100644
--- a/src/hob3lop/matq.c
+++ b/src/hob3lop/matq.c
@@ -99,24 +99,14 @@ extern cq_divmod_t cq_divmodx(
     cq_dimw_t x,
     cq_dim_t d)
 {
+    cq_divmodw_t w = cq_divmodw(x, d);
     cq_divmod_t v = {
-        .div = (cq_dim_t)(x / d),
-        .mod = (cq_dim_t)(x % d)
+        .div = (cq_dim_t)w.div,
+        .mod = (cq_dim_t)w.mod
     };
-    if ((v.mod + (v.div * d)) != x) {
+    if (v.div != w.div) {
         cq_fail("overflow in divide");
     }
-    if (v.mod >= 0) {
-        return v;
-    }
-    if (d >= 0) {
-        v.div -= 1;
-        v.mod += d;
-    }
-    else {
-        v.div += 1;
-        v.mod -= d;
-    }
     return v;
 }
 
-- 
2.43.0


From 4d929fa123dd4b833f6ff8dfb395cbba13368c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 61/69] fix: more than 100 edges crossing in one point were an
 assertion failure

---
 src/hob3lop/op-sweep.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 6a90ae7..7d405af 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -709,8 +709,7 @@ static void ev_cross(
     assert(ev->some_edge != NULL);
     edge_t *u = NULL;
     edge_t *t = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -724,8 +723,7 @@ static void ev_cross(
 
     edge_t *r = NULL;
     edge_t *s = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         r = tree_edge_prev(s);
         if (r == NULL) {
             break;
@@ -1064,8 +1062,7 @@ static inline void sweep_phase2_edge_reverse(
 
     /* find top-most and bottom most edge */
     edge_t *t = s;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -1077,8 +1074,7 @@ static inline void sweep_phase2_edge_reverse(
     }
     assert(t != NULL);
 
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *r = tree_edge_prev(s);
         if (r == NULL) {
             break;
-- 
2.43.0


From 87f1af26e6a5109a1685bbaa3849a7cc18b1cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:58 +0000
Subject: [PATCH 62/69] fix: the inverse of a matrix with inverse takes its
 determinant from the operand

cp_mat*i_inv(r, a) computed the determinant from the old contents of r, so it
was wrong whenever r and a are different matrices.
---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..deb168a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..c1264ef 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From 182107f0c316752b4d3230eb334267cd1b877cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:58 +0000
Subject: [PATCH 63/69] fix: rotating (0,0,-1) into the Z axis is a rotation

cp_dim3_rot_unit_into_z() returned a mirror matrix for this direction, while
its callers record a determinant of 1.
---
 src/hob3lmat/algo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..c973096 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -154,7 +154,8 @@ extern void cp_dim3_rot_unit_into_z(
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
+        /* for z < 0, rotate around X (do not mirror) */
+        *r1 = CP_VEC3(0, z < 0 ? -1 : 1, 0);
         *r2 = CP_VEC3(0, 0, z);
         return;
     }
-- 
2.43.0


From 1cd364280ae5823c0028e363c6bca3fdf9a17a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:58 +0000
Subject: [PATCH 64/69] fix: cp_f_get_int() takes 0 for an integer

---
 src/hob3lmat/algo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index c973096..2c1a735 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -1205,6 +1205,11 @@ extern bool cp_f_get_int(
     if (!split_float(&s, f)) {
         return false;
     }
+    /* zero has no highest bit */
+    if (s.mant == 0) {
+        *ip = 0;
+        return true;
+    }
     /* check we are not obviously below 1 */
     if (s.exp < 0) {
         return false;
-- 
2.43.0


From c0d241e06343ccf48b91cff0103d1a9f2d389e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 65/69] fix: cp_mat3_is_rect_rot() returned false for all
 rectangular rotations

The generated decision tree had the sense of its branches inverted, and mixed
up rows and columns.
---
 script/mkrotmat           |  4 ++--
 src/hob3lmat/mat_is_rot.c | 50 +++++++++++++++++++--------------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/script/mkrotmat b/script/mkrotmat
index 5de6793..c704282 100755
--- a/script/mkrotmat
+++ b/script/mkrotmat
@@ -9,7 +9,7 @@ sub all_0($$@)
 {
     my ($x,$y,@a) = @_;
     for my $a (@a) {
-        if ($a->[$x][$y]) {
+        if ($a->[$y][$x]) {
             return 0;
         }
     }
@@ -107,7 +107,7 @@ sub write_test($$@)
     die unless (scalar(@$cs2) + 1) == scalar(@$cs);
 
     my ($x,$y) = @$cb;
-    print ind($i)."if (!".is0($x,$y).") {\n";
+    print ind($i)."if (".is0($x,$y).") {\n";
     write_test($i+1, $cs2, @$b0);
     print ind($i)."}\n";
     write_test($i, $cs2, @$b1);
diff --git a/src/hob3lmat/mat_is_rot.c b/src/hob3lmat/mat_is_rot.c
index e473dcc..6563568 100644
--- a/src/hob3lmat/mat_is_rot.c
+++ b/src/hob3lmat/mat_is_rot.c
@@ -10,48 +10,48 @@ extern bool cp_mat3_is_rect_rot(
     /*   ? 0 0   ? 0 0   0 ? 0   0 ? 0   0 0 ?   0 0 ?
      *   0 ? 0   0 0 ?   ? 0 0   0 0 ?   ? 0 0   0 ? 0
      *   0 0 ?   0 ? 0   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
-    if (!cp_eq(m->m[0][0], 0)) {
+    if (cp_eq(m->m[0][0], 0)) {
         /*   O ? 0   O ? 0   O 0 ?   O 0 ?
          *   ? 0 0   0 0 ?   ? 0 0   0 ? 0
          *   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
-        if (!cp_eq(m->m[1][0], 0)) {
+        if (cp_eq(m->m[1][0], 0)) {
             /*   O ? 0   O 0 ?
              *   O 0 ?   O ? 0
              *   ? 0 0   ? 0 0  */
-            if (!cp_eq(m->m[0][1], 0)) { return false; }
-            if (!cp_eq(m->m[1][2], 0)) { return false; }
+            if (!cp_eq(m->m[2][1], 0)) { return false; }
             if (!cp_eq(m->m[2][2], 0)) { return false; }
-            if (!cp_eq(m->m[1][1], 0)) {
-                /*   O X 0
-                 *   O O X
-                 *   ? 0 O  */
-                if (!cp_eq(m->m[2][0], 0)) { return false; }
+            if (cp_eq(m->m[0][1], 0)) {
+                /*   O O ?
+                 *   O ? 0
+                 *   ? O O  */
+                if (!cp_eq(m->m[1][2], 0)) { return false; }
                 return true;
             }
-            /*   O O ?
-             *   O X O
-             *   ? 0 O  */
-            if (!cp_eq(m->m[2][1], 0)) { return false; }
+            /*   O X 0
+             *   O 0 ?
+             *   ? O O  */
+            if (!cp_eq(m->m[1][1], 0)) { return false; }
+            if (!cp_eq(m->m[0][2], 0)) { return false; }
             return true;
         }
         /*   O ? 0   O 0 ?
          *   X 0 0   X 0 0
          *   0 0 ?   0 ? 0  */
+        if (!cp_eq(m->m[2][0], 0)) { return false; }
         if (!cp_eq(m->m[1][1], 0)) { return false; }
-        if (!cp_eq(m->m[2][1], 0)) { return false; }
-        if (!cp_eq(m->m[0][2], 0)) { return false; }
-        if (!cp_eq(m->m[0][1], 0)) {
-            /*   O O X
-             *   X O 0
-             *   0 X 0  */
+        if (!cp_eq(m->m[1][2], 0)) { return false; }
+        if (cp_eq(m->m[0][1], 0)) {
+            /*   O O ?
+             *   X O O
+             *   O ? 0  */
             if (!cp_eq(m->m[2][2], 0)) { return false; }
             return true;
         }
-        /*   O X O
-         *   X O 0
-         *   0 O ?  */
-        if (!cp_eq(m->m[2][0], 0)) { return false; }
-        if (!cp_eq(m->m[1][2], 0)) { return false; }
+        /*   O X 0
+         *   X O O
+         *   O 0 ?  */
+        if (!cp_eq(m->m[2][1], 0)) { return false; }
+        if (!cp_eq(m->m[0][2], 0)) { return false; }
         return true;
     }
     /*   X 0 0   X 0 0
@@ -61,7 +61,7 @@ extern bool cp_mat3_is_rect_rot(
     if (!cp_eq(m->m[2][0], 0)) { return false; }
     if (!cp_eq(m->m[0][1], 0)) { return false; }
     if (!cp_eq(m->m[0][2], 0)) { return false; }
-    if (!cp_eq(m->m[1][1], 0)) {
+    if (cp_eq(m->m[1][1], 0)) {
         /*   X O O
          *   O O ?
          *   O ? 0  */
-- 
2.43.0


From a27b72d35bfe7fd8c2448f775998d1f3b858da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 66/69] fix: --no-csg aborts or produces no output in several
 output formats

---
 src/hob3l/csg2-2js.c   |  3 +--
 src/hob3l/csg2-2ps.c   | 26 +++++++++++++++++++++++++-
 src/hob3l/csg2-2scad.c | 34 +++++++++++++++++++++++++++++++++-
 src/hob3l/csg2-2stl.c  |  2 +-
 src/hob3l/csg2-layer.c |  3 +++
 5 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index 3faa943..b05dac0 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -437,7 +437,7 @@ static void csg2_put_js(
         return;
 
     case CP_CSG2_VLINE2:
-        assert(0 && "no v_line2 support");
+        /* --no-csg: unprocessed lines enclose no triangles */
         return;
 
     case CP_CSG2_SWEEP:
@@ -560,7 +560,6 @@ static size_t csg2_max_point_cnt(
         return stack_max_point_cnt(cp_csg2_cast(cp_csg2_stack_t, r));
 
     case CP_CSG2_VLINE2:
-        assert(0 && "no v_line2 support");
         return 0;
 
     case CP_CSG2_SWEEP:
diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 9796bef..32576f1 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/panic.h>
 #include <hob3l/gc.h>
 #include <hob3l/csg.h>
+#include <hob3lop/gon.h>
 #include <hob3l/csg2.h>
 #include <hob3l/ps.h>
 #include "internal.h"
@@ -164,6 +165,29 @@ static void poly_put_ps(
     }
 }
 
+static void vline2_put_ps(
+    ctxt_t *k,
+    cp_csg2_vline2_t *r,
+    double z)
+{
+    for (cp_v_each(i, &r->q)) {
+        cq_line2_t const *l = &cp_v_nth(&r->q, i);
+        cp_vec2_t a = cq_export_vec2(&l->a);
+        cp_vec2_t b = cq_export_vec2(&l->b);
+        cp_vec2_t p0;
+        coord(&p0, k, &a, z);
+        cp_vec2_t p1;
+        coord(&p1, k, &b, z);
+        cp_printf(k->s,
+            "newpath %g %g moveto %g %g lineto "
+            "%g %g %g setrgbcolor "
+            "stroke\n",
+            p0.x, p0.y,
+            p1.x, p1.y,
+            RGB(k->opt->color_path));
+    }
+}
+
 static void sub_put_ps(
     ctxt_t *k,
     cp_csg2_tree_t *t,
@@ -263,7 +287,7 @@ static void csg2_put_ps(
         return;
 
     case CP_CSG2_VLINE2:
-        assert(0 && "no v_line2 support");
+        vline2_put_ps(k, cp_csg2_cast(cp_csg2_vline2_t, r), cp_v_nth(&t->z, zi));
         return;
 
     case CP_CSG2_SWEEP:
diff --git a/src/hob3l/csg2-2scad.c b/src/hob3l/csg2-2scad.c
index c310ded..e405ec9 100644
--- a/src/hob3l/csg2-2scad.c
+++ b/src/hob3l/csg2-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/panic.h>
 #include <hob3l/gc.h>
 #include <hob3l/csg.h>
+#include <hob3lop/gon.h>
 #include <hob3l/csg2.h>
 #include "internal.h"
 
@@ -69,6 +70,37 @@ static void poly_put_scad(
     cp_printf(s, "]);\n");
 }
 
+static void vline2_put_scad(
+    cp_stream_t *s,
+    cp_csg2_tree_t *t,
+    int d,
+    size_t zi,
+    cp_csg2_vline2_t *r)
+{
+    cp_printf(s, "%*s", d,"");
+    cp_dim_t lt = cp_csg2_layer_thickness(t, zi);
+    cp_printf(s, "linear_extrude(height="FF",center=0,convexity=2,twist=0)",
+        cp_monus(lt, layer_gap(t->opt->layer_gap)));
+    cp_printf(s, "polygon(");
+    cp_printf(s, "points=[");
+    for (cp_v_each(i, &r->q)) {
+        cq_line2_t const *l = &cp_v_nth(&r->q, i);
+        cp_vec2_t a = cq_export_vec2(&l->a);
+        cp_vec2_t b = cq_export_vec2(&l->b);
+        cp_printf(s,"%s["FF","FF"],["FF","FF"]",
+            i == 0 ? "" : ",",
+            a.x, a.y, b.x, b.y);
+    }
+    cp_printf(s, "],");
+    cp_printf(s, "paths=[");
+    for (cp_v_each(i, &r->q)) {
+        cp_printf(s, "%s[%"CP_Z"u,%"CP_Z"u]",
+            i == 0 ? "" : ",",
+            2*i, 2*i + 1);
+    }
+    cp_printf(s, "]);\n");
+}
+
 static void union_put_scad(
     cp_stream_t *s,
     cp_csg2_tree_t *t,
@@ -211,7 +243,7 @@ static void csg2_put_scad(
         return;
 
     case CP_CSG2_VLINE2:
-        assert(0 && "no v_line2 support");
+        vline2_put_scad(s, t, d, zi, cp_csg2_cast(cp_csg2_vline2_t, r));
         return;
 
     case CP_CSG2_STACK:
diff --git a/src/hob3l/csg2-2stl.c b/src/hob3l/csg2-2stl.c
index c7f9694..181bc01 100644
--- a/src/hob3l/csg2-2stl.c
+++ b/src/hob3l/csg2-2stl.c
@@ -301,7 +301,7 @@ static void csg2_put_stl(
         return;
 
     case CP_CSG2_VLINE2:
-        assert(0 && "no v_line2 support");
+        /* --no-csg: unprocessed lines enclose no triangles */
         return;
 
     case CP_CSG2_SWEEP:
diff --git a/src/hob3l/csg2-layer.c b/src/hob3l/csg2-layer.c
index 93b906e..51164fc 100644
--- a/src/hob3l/csg2-layer.c
+++ b/src/hob3l/csg2-layer.c
@@ -336,6 +336,9 @@ extern void cp_csg2_tree_add_layer(
     assert(zi < r->z.size);
     bool no = false;
     csg2_add_layer_add(&no, pool, r, zi, cp_csg_cast(cp_csg_add_t, r->root));
+    if (no) {
+        cp_v_nth(&r->flag, zi) |= CP_CSG2_FLAG_NON_EMPTY;
+    }
 }
 
 /**
-- 
2.43.0


From 2830f5b88fd6f94738e2ebdd0470b5e6f9db2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 67/69] fix: 'use' and 'surface' abort instead of reporting an
 error

---
 src/hob3l/csg3.c | 3 +--
 src/hob3l/scad.c | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a3488b7..04a6d73 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1026,8 +1026,7 @@ static bool csg3_from_surface(
 
     (void)r;
     (void)m;
-    CP_NYI("surface");
-    return false;
+    return msg(c, CP_ERR_FAIL, s->loc, NULL, "'surface' is not supported.");
 }
 
 static bool csg3_from_text(
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index a150093..acc93f9 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1604,11 +1604,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_fail(t, f->loc, NULL, "'use' is not supported.");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From e01363ae71ee3b9b4bfe139bf5a2c5b1648c6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 68/69] fix: --dump-scad loses or rounds parameters of import,
 surface, text, rotate_extrude, colours and $fa/$fs

---
 src/hob3l/scad-2scad.c | 37 ++++++++++++++++++++++---------------
 src/hob3l/scad.c       |  4 ++++
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..c7c39db 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -67,7 +67,7 @@ static void linext_put_scad(
 {
     cp_printf(s, "linear_extrude("
         "height="FF", scale=["FF","FF"], twist="FF", slices=%u, center=%s"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF
         "){\n",
         r->height, r->scale.x, r->scale.y, r->twist,
         r->slices, r->center ? "true" : "false",
@@ -82,8 +82,8 @@ static void rotext_put_scad(
     cp_scad_rotext_t const *r)
 {
     cp_printf(s, "rotate_extrude("
-        "angle=%g"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        "angle="FF
+        ", $fn=%u, $fa="FF", $fs="FF
         "){\n", r->angle,
         r->detail._fn, r->detail._fa, r->detail._fs);
     v_scad_put_scad(s, d + IND, &r->child);
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef,alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
@@ -124,10 +124,17 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
-        ", $fn=%u, $fa=%g, $fs=%g"
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF""
+        ", $fn=%u, $fa="FF", $fs="FF
         ");\n",
-        r->file_tok,
+        r->center ? "true" : "false", r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -135,7 +142,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
@@ -144,12 +151,12 @@ static void text_put_scad(
     cp_scad_text_t const *r)
 {
     cp_printf(s,
-        "text(text=\"%s\",size=%g,font=\"%s\",halign=\"%s\",valign=\"%s\","
-        "spacing=%g,direction=\"%s\",language=\"%s\",script=\"%s\""
-        ",$fn=%u,$fa=%g,$fs=%g"
+        "text(text=\"%s\",size="FF",font=\"%s\",halign=\"%s\",valign=\"%s\","
+        "spacing="FF",tracking="FF",direction=\"%s\",language=\"%s\",script=\"%s\""
+        ",$fn=%u,$fa="FF",$fs="FF
         ");\n",
         r->text, r->size, r->font, r->halign, r->valign,
-        r->spacing, r->direction, r->language, r->script,
+        r->spacing, r->tracking, r->direction, r->language, r->script,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -204,7 +211,7 @@ static void sphere_put_scad(
     cp_scad_sphere_t const *r)
 {
     cp_printf(s, "sphere(r="FF""
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF
         ");\n",
         r->r,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -215,7 +222,7 @@ static void circle_put_scad(
     cp_scad_circle_t const *r)
 {
     cp_printf(s, "circle(r="FF""
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF
         ");\n",
         r->r,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -226,7 +233,7 @@ static void cylinder_put_scad(
     cp_scad_cylinder_t const *r)
 {
     cp_printf(s, "cylinder(h="FF", r1="FF", r2="FF", center=%s"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF
         ");\n",
         r->h, r->r1, r->r2,
         r->center ? "true" : "false",
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index acc93f9..2fbf778 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1525,6 +1525,7 @@ static bool text_from_item(
 {
     cp_scad_text_t *q = cp_scad_cast(*q, _q);
 
+    q->detail = CP_DETAIL_INIT;
     q->font = "Nozzl3 Sans";
     q->halign = "left";
     q->valign = "baseline";
@@ -1549,6 +1550,9 @@ static bool text_from_item(
             PARAM_STR   ("script",    &q->script,    OPTIONAL),
             PARAM_FLOAT ("spacing",   &q->spacing,   OPTIONAL),
             PARAM_FLOAT ("tracking",  &q->tracking,  OPTIONAL),
+            PARAM_FLOAT ("$fa",  &q->detail._fa, OPTIONAL),
+            PARAM_FLOAT ("$fs",  &q->detail._fs, OPTIONAL),
+            PARAM_UINT32("$fn",  &q->detail._fn, OPTIONAL),
         )))
     {
         return false;
-- 
2.43.0


From 118909439516a8de2982c61b1d4aae833b943190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:14 +0000
Subject: [PATCH 69/69] fix: an STL file imported where 2D shapes are expected
 was not an ignored child

With --outside-3d=warn or ignore, such an import counted as the first operand
of difference and as an operand of intersection, unlike any other 3D object
and unlike documented (IGNORE2D).
---
 src/hob3l/csg3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 04a6d73..5d572c5 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -926,8 +926,6 @@ static bool csg3_from_import(
     local_t const *m,
     cp_scad_import_t const *s)
 {
-    *no = true;
-
     /* read file */
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, c->err, c->syn, s->file_tok, s->file.data, NULL)) {
@@ -959,6 +957,7 @@ static bool csg3_from_import(
             }
 
             /* SVG format => we need 2D context */
+            *no = true;
             if (c->context != IN2D) {
                 return msg(c, c->opt->err_outside_2d, s->loc, NULL,
                     "'import' SVG found outside 2D context.");
@@ -980,6 +979,7 @@ static bool csg3_from_import(
         return msg(c, c->opt->err_outside_3d, s->loc, NULL,
             "'import' STL found outside 3D context.");
     }
+    *no = true;
 
     /* parse file into poly */
     cp_csg3_poly_t *o = cp_csg3_new_obj(*o, s->loc, m->gc);
-- 
2.43.0

