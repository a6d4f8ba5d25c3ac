From e296f752032cc0390766216332cbb4ca62344716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 01/10] fix: resolv_cubic_equa returned NaN for x^3 + c = 0
 with c > 0

With p == 0 and q > 0, -q/2 + sqrt(k) is 0, so w1 = -p / (3 * v1) was 0/0.
Take the cube root of the larger of the two conjugate values instead.
---
 src/src/rmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 3d2ce07..076df85 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -790,7 +790,8 @@ namespace rmath
       //此时v1, w1均为实数
       //只有一个实数解则只能是y1 = v1 + w1
       double sqrtk = std::sqrt(k);
-      double v1 = std::cbrt(-q / 2 + sqrtk);
+      // v1、w1 可互换，取绝对值较大者作除数，避免 v1 为 0 (p == 0, q > 0)
+      double v1 = std::cbrt(q > 0 ? -q / 2 - sqrtk : -q / 2 + sqrtk);
       double w1 = -p / (3 * v1);
 
       res.count = 1;
-- 
2.43.0


From 2dd7a13382193b1c5c2c20dd90ad277765d230dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:12 +0000
Subject: [PATCH 02/10] fix: resolv_cubic_equa used a 10-digit pi for two of
 its three roots

The local constant shadowed rmath::pi and put the second and third root
about 1e-10 off.
---
 src/src/rmath.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 076df85..6c29d6e 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -814,7 +814,6 @@ namespace rmath
 
       double r = std::sqrt(q * q / 4 - k);
       double AAA = 2 * std::cbrt(r);
-      constexpr double pi = 3.1415926535;
 
       res.count = 3;
       res.data[0] = minus * AAA * std::cos(phi / 3) - a / 3;
-- 
2.43.0


From 3f5f3381a961c645dc41bdbfd53d562b7c6fc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:16 +0000
Subject: [PATCH 03/10] fix: bezier_cubic::split_y returned its two parameters
 in descending order when a > 0

split() expects ascending parameters, so read_cubicto built pieces that
were not monotone in y.
---
 src/src/rmath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 6c29d6e..e93c2d3 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -440,7 +440,11 @@ namespace rmath
       switch (res.size())
       {
       case 1: *t1 = res[0]; return 1;
-      case 2: *t1 = res[0]; *t2 = res[1]; return 2;
+      case 2:
+        // 打断点按 t 升序，split 依赖此顺序
+        *t1 = (std::min)(res[0], res[1]);
+        *t2 = (std::max)(res[0], res[1]);
+        return 2;
       default: return 0;
       }
     }
-- 
2.43.0


From 50b614046a7c77ee4164d97d80427e14bbb9139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 04/10] fix: dist2_point_line measured the distance to the
 segment, not to the infinite line

Its declaration says infinite line, and intersect() uses it as collinearity
test: overlapping collinear segments were missed whenever p0 lay outside
p2p3.
---
 src/src/rmath.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index e93c2d3..1563e88 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -54,23 +54,13 @@ namespace rmath
 
   vec2 operator*(double sc, const vec2& v) { return v * sc; }
   double dist2_point_line(const vec2& p, const vec2& l0, const vec2& l1) {
-    vec2 AC, D;
-    AC = p - l0;
+    vec2 AC = p - l0;
     vec2 AB = l1 - l0;
-    double f = 0, d = AB.dist2(), res;
-    f = AB.dot(AC);
-    if (f < 0)
-      res = AC.dist2();
-    else if (f > d)
-      res = (p - l1).dist2();
-    else
-    {
-      f = f / d;
-      D = l0 + AB * f;
-      res = (p - D).dist2();
-    }
+    double d = AB.dist2();
+    if (d == 0) return AC.dist2();
 
-    return res;
+    double c = AB.cross(AC);
+    return c * c / d;
   }
 
   // 计算点投影到（有限长）线段的点是否位于线段内
-- 
2.43.0


From a1968bdbfb39121cf9f887585b53c55ab457de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:47 +0000
Subject: [PATCH 05/10] fix: new_output took the direction of an output bound
 from the input edge

A bound that is opened between two edges of the same direction (even_odd and
non_zero filling, difference, xor) made both bounds of the contour 'up' or
both 'down': the contour was assembled from the wrong ends and join_output
dereferenced null. The direction now follows the side of the result region
the bound is on; copy_seg already reverses the edges where needed.
---
 src/src/vatti.cpp | 18 ++++++++++--------
 src/src/vatti.h   |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 79188aa..6361a04 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -872,6 +872,7 @@ namespace vatti
     struct new_bound {
       class edge* edge = nullptr;
       bool is_done = false;
+      bool is_left = false;
     };
     std::vector<new_bound> bound_edge;
     // 开始构建新的输出
@@ -882,7 +883,7 @@ namespace vatti
         if (!bound_edge.empty() && is_same(e, bound_edge.back().edge))
           bound_edge.pop_back();
         else
-          bound_edge.push_back({ e, false });
+          bound_edge.push_back({ e, false, bound_edge.size() % 2 == 0 });
       }
       e = e->next_in_ael;
     }
@@ -895,7 +896,7 @@ namespace vatti
         bound_edge[i - 1].is_done = true;
         bound_edge[i - 0].is_done = true;
 
-        new_output(bound_edge[i - 1].edge, bound_edge[i].edge);
+        new_output(bound_edge[i - 1].edge, bound_edge[i].edge, true);
       }
     }
 
@@ -904,6 +905,7 @@ namespace vatti
       out_bound* bound;
       num curr_x;
       size_t obl_index;
+      bool is_left;
     };
 
     // bound_edge 和 obl 剩下的依次按 curr_x, is_up, obl_index, ael, obl原来的顺序排序
@@ -911,11 +913,11 @@ namespace vatti
     std::list<bound_data> sbl;
     for (auto& new_b : bound_edge) {
       if (new_b.is_done == false) sbl.push_back({
-          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size() });
+          new_b.edge, nullptr, new_b.edge->curr_x, sbl.size(), new_b.is_left });
     }
     auto curr_b = obl_first;
     while (curr_b) {
-      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size() });
+      sbl.push_back({ nullptr, curr_b, curr_b->stop_x, sbl.size(), false });
       curr_b = curr_b->next_in_obl;
     }
     sbl.sort(
@@ -949,7 +951,7 @@ namespace vatti
 
         // 只剩下可以按顺序两两相连即可
         next = std::next(it);
-        if (it->edge && next->edge) new_output(it->edge, next->edge);
+        if (it->edge && next->edge) new_output(it->edge, next->edge, it->is_left);
         else if (it->bound && next->bound) join_output(it->bound, next->bound, y);
         else if (it->edge) update_bound(next->bound, it->edge);
         else update_bound(it->bound, next->edge);
@@ -1355,7 +1357,7 @@ namespace vatti
   }
 
   // a、b 的wind_dx必定相反
-  void clipper::new_output(edge* a, edge* b)
+  void clipper::new_output(edge* a, edge* b, bool is_left)
   {
     auto output = new_out_polygon();
     output->idx = output_list.size();
@@ -1366,14 +1368,14 @@ namespace vatti
     up->owner = output;
     up->curr_edge = a;
     a->bound = up;
-    up->wind_dx = a->wind_dx;
+    up->wind_dx = (fillrule_ == fill_rule::negative) == is_left ? -1 : 1;
     up->stop_x = a->curr_x;
 
     auto down = new_bound();
     down->owner = output;
     down->curr_edge = b;
     b->bound = down;
-    down->wind_dx = b->wind_dx;
+    down->wind_dx = -up->wind_dx;
     down->stop_x = b->curr_x;
 
     if (!up->is_up()) {
diff --git a/src/src/vatti.h b/src/src/vatti.h
index 0d123f5..1a53477 100644
--- a/src/src/vatti.h
+++ b/src/src/vatti.h
@@ -188,7 +188,7 @@ namespace vatti
     void resort_ael(num y);
     void build_output(path_traverse_funcs write_func, void* output);
     void join_output(out_bound* a, out_bound* b, num y);
-    void new_output(edge* a, edge* b);
+    void new_output(edge* a, edge* b, bool is_left);
     void update_bound(out_bound* bound, edge* new_edge);
     void delete_obl_bound(out_bound*);
     edge* do_maxima(edge* e);
-- 
2.43.0


From f0936b667b7bd75482eac5bf0421230b8489e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:49 +0000
Subject: [PATCH 06/10] fix: the second edge of a local minimum was searched
 from the first one's left neighbour

With a horizontal bottom the second edge can start left of that neighbour,
and insert_into_ael(left, e) only looks to the right: the active edge list
was no longer sorted by x.
---
 src/src/vatti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 6361a04..011cbad 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -758,7 +758,7 @@ namespace vatti
       b->curr_x = b->bot.x;
 
       insert_into_ael(a);
-      insert_into_ael(a->prev_in_ael, b);
+      insert_into_ael(b);
       insert_scanline(a->top.y);
       insert_scanline(b->top.y);
     }
-- 
2.43.0


From e38b18ec58928776cb73ea9df92c2fdf7056e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:42 +0000
Subject: [PATCH 07/10] fix: collinear line intersection could write past
 line_intersect_result::data

A degenerate (p0 == p1) or denormal-distance pair satisfies up to four of the
end point tests; the result holds two points.
---
 src/src/rmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 1563e88..41ca602 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -120,7 +120,7 @@ namespace rmath
           res.count++;
         }
 
-        if (p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
+        if (res.count < 2 && p2 != p0 && p2 != p1 && point_between_two_point(p2, p0, p1)) {
           // p2 在 l 内
           auto& data = res.data[res.count];
           data.p = p2;
@@ -129,7 +129,7 @@ namespace rmath
           else data.t0 = (p2 - p0).y / a.y;
           res.count++;
         }
-        if (p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
+        if (res.count < 2 && p3 != p0 && p3 != p1 && point_between_two_point(p3, p0, p1)) {
           // p3 在 l 内
           auto& data = res.data[res.count];
           data.p = p3;
-- 
2.43.0


From bbaf03c2aace67f520987b7d0afe54553d9e978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:42 +0000
Subject: [PATCH 08/10] fix: rect::inflated built its max corner from min

---
 src/include/rmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/rmath.h b/src/include/rmath.h
index d90cf17..13cb908 100644
--- a/src/include/rmath.h
+++ b/src/include/rmath.h
@@ -74,7 +74,7 @@ namespace rmath
     num height() const { return max.y - min.y; }
     point_type center() const { return (max + min) / 2; }
 
-    rect inflated(const num& n) const { return rect(min - n, min + n); }
+    rect inflated(const num& n) const { return rect(min - n, max + n); }
 
     static rect from(std::initializer_list<point_type> _Ilist)
     {
-- 
2.43.0


From 55192c2410d7355d1ca23d1658bc2e5253ea4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:42 +0000
Subject: [PATCH 09/10] fix: point_project_in_segment accepted projections
 before the start of the segment

---
 src/src/rmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/rmath.cpp b/src/src/rmath.cpp
index 41ca602..1dd2b8b 100644
--- a/src/src/rmath.cpp
+++ b/src/src/rmath.cpp
@@ -74,7 +74,7 @@ namespace rmath
     vec2 u = p - p0;
 
     double sc = v.dot(u) / v.dot(v);
-    return sc <= 1;
+    return 0 <= sc && sc <= 1;
   }
 
   bool point_between_two_point(const vec2& p, const vec2& p0, const vec2& p1)
-- 
2.43.0


From 8b81a27f1487745285c994e6909d262a3db2e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:42 +0000
Subject: [PATCH 10/10] fix: a second process() call wrote the contours of the
 first one again

---
 src/src/vatti.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/vatti.cpp b/src/src/vatti.cpp
index 011cbad..214dd70 100644
--- a/src/src/vatti.cpp
+++ b/src/src/vatti.cpp
@@ -352,6 +352,7 @@ namespace vatti
     cur_locmin_it = local_minima_list.begin();
     ael_first = nullptr;
     obl_first = nullptr;
+    output_list.clear();
   }
 
   void clipper::add_path(const paths& paths, path_type polytype, bool is_open)
-- 
2.43.0

