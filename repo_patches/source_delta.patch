From dbf7e8511c0585d9ca1b8f52efa6fcaef5042daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 01/43] fix: don't pass anchor points to point trackers

With tree output, follow_balance() called i_point_tracker::point_merge() with
the indices of temporary anchor points, which the tracker was never told about.
---
 include/poly_ops/clip.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..c68c7c8 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1207,12 +1207,20 @@ void follow_balance(
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
     Index next = points[intr].next;
     Index prev = intr;
+
+    /* the last point that isn't an anchor point; point trackers do not know
+    about anchor points */
+    Index merge_from = intr;
+
     while(!points[next].has_line_bal()) {
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
         if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
+            if(!(points[next].state() & line_state::anchor)) {
+                if(pt) pt->point_merge(merge_from,next);
+                merge_from = next;
+            }
         } else if(points[intr].state() & line_state::reverse) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
@@ -1229,7 +1237,7 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(prev,next);
+        if(pt) pt->point_merge(merge_from,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
-- 
2.43.0


From 92db8f58c68d1a054d1a5f7f8a0617d46a337739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 02/43] fix: only compare points of the same loop when
 discarding duplicates

The first point of a loop was dropped if it was equal to the last point of the
previously added loop, loops whose points were all the same caused an
out-of-bounds read, and repeating the first point more than once at the end of
a loop left a zero-length line.
---
 include/poly_ops/clip.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index c68c7c8..115380c 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2035,8 +2035,6 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
-
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
         case 0:
@@ -2059,10 +2057,14 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
+    n._next_orig_i = orig_i + 1;
+    if(started) {
+        // ignore consecutive duplicates
+        if(p == prev) return;
+        finalize_prev();
+    }
     prev = p;
     prev_orig_i = orig_i;
-    n._next_orig_i = orig_i + 1;
     started = true;
 }
 template<coordinate Coord,std::integral Index>
@@ -2072,7 +2074,9 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        /* the last point is ignored if it's the same as the first point, unless
+        it is the first point */
+        if(n.lpoints.size() == std::size_t(first_i) || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From 41304d69333756eb61fb15d39212112ef499ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 03/43] fix: reset the rounding generator in clipper::reset

The output of a reused clipper depended on how many times it had been used.
---
 include/poly_ops/clip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 115380c..b157029 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2502,6 +2502,7 @@ void clipper<Coord,Index>::reset() {
     lpoints.clear();
     samples.clear();
     sweep_nodes.resize(1);
+    rgen.seed();
     _next_orig_i = 0;
     ran = false;
 }
-- 
2.43.0


From af72a5d74f61820f4bca1413f9ebdd19d94867b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 04/43] fix: make tclipper::add_loops_subject and
 add_loops_clip usable

They passed three arguments to tclipper::add_loops, which takes two.
---
 include/poly_ops/clip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index b157029..7e84571 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2537,7 +2537,7 @@ public:
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        base.add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
     }
 
     /**
@@ -2545,7 +2545,7 @@ public:
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        base.add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
     }
 
     /**
-- 
2.43.0


From 837105223026edd0afbc60d1fab523a169168fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 05/43] fix: make proto_loop_iterator's post-increment operator
 usable

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 7e84571..80a010a 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1619,7 +1619,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
-- 
2.43.0


From 3dfcb792c922e8c8e3e0716961b26f44756a47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:40 +0000
Subject: [PATCH 06/43] fix: mark non-template functions defined in headers as
 inline

Including the headers in more than one translation unit resulted in multiple
definitions of rand_bool, should_fill, ar_add and ar_sub.
---
 include/poly_ops/clip.hpp       | 2 +-
 include/poly_ops/large_ints.hpp | 4 ++--
 include/poly_ops/polydraw.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 80a010a..de02f22 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -434,7 +434,7 @@ using rand_generator = std::minstd_rand;
 
 /* std::uniform_int_distribution(0,1) appears to behave differently between
 GCC's and MSVC's libraries, so it isn't used */
-bool rand_bool(rand_generator &rgen) {
+inline bool rand_bool(rand_generator &rgen) {
     constexpr auto mid = rand_generator::min() + (rand_generator::max() - rand_generator::min()) / 2;
     return rgen() > mid;
 }
diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..f452084 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -867,13 +867,13 @@ template<typename T> auto abs(const T &x) noexcept {
     }
 }
 
-void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_addcarry(a[i],b[i],out[i],carry);
     }
 }
-void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_subborrow(a[i],b[i],out[i],carry);
diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..ae60085 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -406,7 +406,7 @@ template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(cons
     return clamp(static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot),lo,hi);
 }
 
-bool should_fill(fill_rule_t rule,long winding) {
+inline bool should_fill(fill_rule_t rule,long winding) {
     switch(rule) {
     case fill_rule_t::non_zero:
         return winding != 0;
-- 
2.43.0


From bb4f2e58f4583d9ba741606b88b612e4dbbacf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 07/43] fix: generate enough points when offsetting a single
 point

At most N-1 of the N points of the circle were generated, and the angle between
the points was not adjusted when N was raised to 3. Single points with a large
arc step size resulted in nothing or division by zero.
---
 include/poly_ops/offset.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..bc45ed3 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -151,14 +151,15 @@ Index offset_lone_point(
     Coord steps = coord_ops<Coord>::to_coord(magnitude * angle / static_cast<real_t>(arc_step_size));
 
     // use at least 3 points to make a circle
-    long lsteps = std::max(static_cast<long>(steps),3L);
+    steps = std::max(steps,static_cast<Coord>(3));
+    long lsteps = static_cast<long>(steps);
 
     real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
     real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
+    for(long i=0; i<lsteps; ++i) {
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
         sink(p + vround<Coord>(offset),next_orig_i);
     }
-- 
2.43.0


From b7990af5e9066004d60434e3eeed6dfefd064136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 08/43] fix: return TrackedRecursiveLoop when tree_out and
 track_points are true

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 6f2f13a..01680f9 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -440,7 +440,7 @@ cdef class PointMap:
 
 TrackedLoop = collections.namedtuple('TrackedLoop','loop originals')
 RecursiveLoop = collections.namedtuple('RecursiveLoop','loop children')
-TrackedRecursiveLoop = collections.namedtuple('RecursiveLoop','loop children originals')
+TrackedRecursiveLoop = collections.namedtuple('TrackedRecursiveLoop','loop children originals')
 
 cdef public object make_tracked_loop(loop,offsets,indices):
     return TrackedLoop(loop,PointMap.__new__(PointMap,offsets,indices))
@@ -449,7 +449,7 @@ cdef public object make_recur_loop(loop,children):
     return RecursiveLoop(loop,children)
 
 cdef public object make_tracked_recur_loop(loop,children,offsets,indices):
-    return RecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
+    return TrackedRecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
 
 cdef load_loop(clipper &c,loop,_bool_set bset,common_dtype,np.NPY_CASTING casting,i_point_tracker *pt):
     cdef np.ndarray ar
-- 
2.43.0


From daf2fcb78b38354440eddbbcbd100e18222cc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 09/43] fix: validate the set argument of add_offsets in the
 Python clippers

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 01680f9..23933eb 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -643,7 +643,7 @@ cdef class Clipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -734,7 +734,7 @@ cdef class TrackedClipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From 826401629e253054691de457680070997b650e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 10/43] fix: update the size of mini_flat_set when inserting a
 second value

---
 include/poly_ops/mini_flat_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..5236a92 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -178,6 +178,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From d5994b59dc41afb3bb0c432a46cdd9983835d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 11/43] fix: mini_flat_set::empty returned the opposite of what
 it should

---
 include/poly_ops/mini_flat_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 5236a92..981194b 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
-- 
2.43.0


From 302bc231b6314e4c064bb37536a33a664b263134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 12/43] fix: account for the stride when subtracting strided
 iterators

---
 include/poly_ops/strided_itr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..cfb0b60 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -75,7 +75,7 @@ struct strided_itr {
     }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return a.stride == 0 ? 0 : (a.ptr - b.ptr) / a.stride;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From 205e3195e7fc67248383c1a1af3b4f1b772c3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 13/43] fix: order strided iterators by position when the
 stride is negative

---
 include/poly_ops/strided_itr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index cfb0b60..24059c3 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -79,7 +79,7 @@ struct strided_itr {
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.stride < 0 ? b.ptr <=> a.ptr : a.ptr <=> b.ptr;
     }
 
     friend auto operator==(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From feef49ecc91fa8fabbf34d35d747d526881f0ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:21 +0000
Subject: [PATCH 14/43] fix: make equality comparison of a fraction and a
 number return a bool

---
 include/poly_ops/polydraw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index ae60085..c03a9cd 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -63,7 +63,7 @@ struct fraction {
     }
     friend auto operator==(const fraction &a,T b) noexcept {
         assert(a.denom > 0);
-        return a.num <=> large_ints::mul(b,a.denom);
+        return a.num == large_ints::mul(b,a.denom);
     }
 };
 
-- 
2.43.0


From 5a0a45fbc99d39d5cf4af55c31ee983c17af2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 15/43] fix: pass the right original indices when offsetting
 lines with repeated points and open lines

---
 include/poly_ops/offset.hpp | 63 ++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index bc45ed3..3831b5c 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -134,16 +134,16 @@ void add_offset_point(
 }
 
 template<typename Index,typename Coord>
-Index offset_lone_point(
+void offset_lone_point(
     typename clipper<Coord,Index>::point_sink &sink,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index next_orig_i,
+    Index orig_i,
     point_t<Coord> p)
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return;
 
     // we need to approximate a circle
 
@@ -161,10 +161,8 @@ Index offset_lone_point(
 
     for(long i=0; i<lsteps; ++i) {
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
-        sink(p + vround<Coord>(offset),next_orig_i);
+        sink(p + vround<Coord>(offset),orig_i);
     }
-
-    return next_orig_i + 1;
 }
 
 /* add a signed int to a possibly unsigned integer */
@@ -173,7 +171,9 @@ template<typename T> auto signed_add(T a,int b) {
 }
 
 template<typename Coord,typename Index> struct offset_tail_end {
-    Index orig_i;
+    Index next_orig_i;
+    Index prev1_orig_i;
+    Index prev2_orig_i;
     point_t<Coord> prev1;
     point_t<Coord> prev2;
 };
@@ -184,25 +184,27 @@ offset_tail_end<Coord,Index> _add_offset_tail_open(
     Input &&input,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index first_orig_i,
+    Index next_orig_i,
     int i_step,
+    Index prev2_orig_i,
+    Index prev1_orig_i,
     point_t<Coord> prev2,
     point_t<Coord> prev1)
 {
-    Index next_orig_i = first_orig_i;
-
     for(point_t<Coord> p : input) {
         if(p != prev1) {
-            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,p);
+            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,p);
             prev2 = prev1;
+            prev2_orig_i = prev1_orig_i;
             prev1 = p;
+            prev1_orig_i = next_orig_i;
         }
         next_orig_i = signed_add(next_orig_i,i_step);
     }
 
-    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,prev2);
+    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,prev2);
 
-    return {signed_add(next_orig_i,i_step),prev1,prev2};
+    return {next_orig_i,prev1_orig_i,prev2_orig_i,prev1,prev2};
 }
 
 template<typename Coord,typename Index,typename Input>
@@ -231,24 +233,29 @@ void _add_offset_open(
         point_t<Coord> prev1;
 
         auto sink = n.add_loop(set,pt);
+        Index first_orig_i = sink.next_orig_i();
+        end_orig_i = first_orig_i + 1;
         
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,first_orig_i,prev2);
                 break;
             }
 
             prev1 = *itr;
             ++itr;
+            ++end_orig_i;
 
             if(prev1 != prev2) {
-                auto [orig_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
+                auto [orig_i,prev1b_i,prev2b_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
                     sink,
                     std::ranges::subrange{itr,std::ranges::end(input)},
                     magnitude,
                     arc_step_size,
-                    sink.next_orig_i(),
+                    end_orig_i,
                     1,
+                    first_orig_i,
+                    end_orig_i-1,
                     prev2,
                     prev1);
                 end_orig_i = orig_i;
@@ -258,8 +265,10 @@ void _add_offset_open(
                     std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
                     magnitude,
                     arc_step_size,
-                    end_orig_i,
+                    signed_add(end_orig_i,-3),
                     -1,
+                    prev1b_i,
+                    prev2b_i,
                     prev1b,
                     prev2b);
                 break;
@@ -300,24 +309,28 @@ void _add_offset_closed(
         point_t<Coord> second;
 
         auto sink = n.add_loop(set,pt);
+        Index first_orig_i = sink.next_orig_i();
+        Index prev2_orig_i = first_orig_i;
+        end_orig_i = first_orig_i + 1;
         
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point(sink,magnitude,arc_step_size,first_orig_i,prev2);
                 break;
             }
 
             prev1 = second = *itr;
             ++itr;
+            Index prev1_orig_i = end_orig_i++;
 
             if(prev1 != prev2) {
-                Index first_orig_i = sink.next_orig_i();
-                end_orig_i = first_orig_i;
                 for(point_t<Coord> p : std::ranges::subrange{itr,end}) {
                     if(p != prev1) {
-                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,end_orig_i+1,prev2,prev1,p);
+                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,p);
                         prev2 = prev1;
+                        prev2_orig_i = prev1_orig_i;
                         prev1 = p;
+                        prev1_orig_i = end_orig_i;
                     }
                     ++end_orig_i;
                 }
@@ -327,19 +340,17 @@ void _add_offset_closed(
                         sink,
                         magnitude,
                         arc_step_size,
-                        end_orig_i,
-                        end_orig_i+1,
+                        prev2_orig_i,
+                        prev1_orig_i,
                         prev2,
                         prev1,
                         prev1 == first ? second : first);
                 }
-                ++end_orig_i;
 
                 /* if "prev1" is equal to "first", we are already done */
                 if(prev1 != first) {
-                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,first_orig_i,prev1,first,second);
+                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev1_orig_i,first_orig_i,prev1,first,second);
                 }
-                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From 84380e91756fc3400fa2dd6111dde63892234b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 16/43] fix: allocate sweep nodes from the memory resource
 passed to clipper

---
 include/poly_ops/clip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index de02f22..93831ec 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1898,6 +1898,7 @@ public:
         lpoints(contig_mem),
         samples(contig_mem),
         events(contig_mem),
+        sweep_nodes(contig_mem),
         breaks(contig_mem,&discrete_mem),
         _next_orig_i(0),
         ran(false),
-- 
2.43.0


From 42f9c36f6cc3998599b1a585e610f940207ce865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:24 +0000
Subject: [PATCH 17/43] fix: make clipper and tclipper movable

---
 include/poly_ops/clip.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 93831ec..24209a4 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1908,7 +1908,24 @@ public:
         sweep_nodes.emplace_back();
     }
 
-    clipper(clipper &&b) = default;
+    /* "discrete_mem" cannot be moved. It's only used by "breaks", which doesn't
+    hold anything that's needed between calls to "execute". */
+    clipper(clipper &&b) :
+        contig_mem(b.contig_mem),
+        discrete_mem(contig_mem),
+        lpoints(std::move(b.lpoints)),
+        samples(std::move(b.samples)),
+        events(std::move(b.events)),
+        sweep_nodes(std::move(b.sweep_nodes)),
+        breaks(contig_mem,&discrete_mem),
+        rgen(b.rgen),
+        _next_orig_i(b._next_orig_i),
+        ran(b.ran),
+        loops_out(std::move(b.loops_out)),
+        top(std::move(b.top))
+    {
+        b.reset();
+    }
 
     /**
      * Add input polygons.
-- 
2.43.0


From 382b29a48258935665f298546f066ef01a64783e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 18/43] fix: give the right quotient and remainder when euclid
 division has no remainder

---
 include/poly_ops/large_ints.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index f452084..9667d42 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1181,7 +1181,7 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem) {
                 r.quot -= 1;
                 r.rem = abs(b) - r.rem;
             }
@@ -1311,7 +1311,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem != 0) {
                 r.rem = abs(b_tmp) - r.rem;
                 r.quot -= 1;
             }
@@ -1342,8 +1342,12 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                if(r.rem) {
+                    r.rem = abs(b) - r.rem;
+                    r.quot = -1 - r.quot;
+                } else {
+                    r.quot = -r.quot;
+                }
             }
         }
     } else {
-- 
2.43.0


From e7a13b7279b1f89dbea48f78fe0255bbe5a050d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 19/43] fix: make one byte instances of sized_int compile

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 9667d42..b59ec80 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -193,7 +193,7 @@ namespace detail {
     template<typename T> struct type_val { using type=T; };
     template<std::size_t Size> auto _bltin_sized_int() noexcept {
         if constexpr(Size <= 1) { return type_val<std::int8_t>{}; }
-        if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
+        else if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
         else if constexpr(Size <= 4) { return type_val<std::int32_t>{}; }
         else if constexpr(Size <= 8) { return type_val<std::int64_t>{}; }
         else { return type_val<void>{}; }
-- 
2.43.0


From fa649fb3bf8b97bca5a4669ab64762be7ebf8986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 20/43] fix: scale the words of integers with more than two
 words correctly when converting to floating point

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b59ec80..4e98a62 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>(sizeof(full_uint)*8*(N-1))) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From f1c98c1462a87f7171ed3482564360e749119a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 21/43] fix: shift by bits instead of bytes when casting large
 integers

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 4e98a62..16e6950 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -285,7 +285,7 @@ namespace detail {
         if constexpr(N == 1) {
             return static_cast<T>(compi_hi<1>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
-- 
2.43.0


From ea5c7b160b4efcf33c3f7c09994b6e7c3965f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 22/43] fix: multiply small unsigned integers without
 overflowing a signed type

---
 include/poly_ops/large_ints.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 16e6950..f8fd9ab 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1079,7 +1079,12 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
     using namespace detail;
 
     if constexpr(small_xints<T> && small_xints<U>) {
-        return static_cast<detail::bltin_sized_int<sizeof(T) + sizeof(U)>>(a) * b;
+        using result_t = detail::bltin_sized_int<sizeof(T) + sizeof(U)>;
+        if constexpr(signed_type<T> || signed_type<U>) {
+            return static_cast<result_t>(a) * b;
+        } else {
+            return static_cast<std::make_unsigned_t<result_t>>(a) * b;
+        }
     } else {
         constexpr bool Signed = signed_type<T> || signed_type<U>;
         constexpr unsigned int Na = int_count<Signed,T>;
-- 
2.43.0


From 9595d68f3b9777fac2602dbabef43b5ac928a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 23/43] fix: don't narrow in point_t's negation operator for
 types smaller than int

---
 include/poly_ops/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/base.hpp b/include/poly_ops/base.hpp
index a4590c9..b965bd9 100644
--- a/include/poly_ops/base.hpp
+++ b/include/poly_ops/base.hpp
@@ -351,7 +351,7 @@ template<typename T> struct point_t {
     }
 
     constexpr point_t operator-() const {
-        return {-_data[0],-_data[1]};
+        return {static_cast<T>(-_data[0]),static_cast<T>(-_data[1])};
     }
 
     friend constexpr void swap(point_t &a,point_t &b) noexcept(std::is_nothrow_swappable_v<T>) {
-- 
2.43.0


From 5d7a5123090fdc3305d715a686021bf2d217f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 24/43] fix: make temp_polygon_proxy assignable so that the
 members of view_interface can be used

---
 include/poly_ops/clip.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 24209a4..ee045fa 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1659,31 +1659,31 @@ public:
 
 private:
     const detail::loop_point<Index,Coord> *lpoints;
-    const detail::temp_polygon<Index> &data;
+    const detail::temp_polygon<Index> *data;
     [[no_unique_address]] tracker_ptr tracker;
 public:
     temp_polygon_proxy(
         const detail::loop_point<Index,Coord> *lpoints,
         const detail::temp_polygon<Index> &data,
         tracker_ptr tracker)
-        : lpoints{lpoints}, data{data}, tracker{tracker} {}
+        : lpoints{lpoints}, data{&data}, tracker{tracker} {}
 
     /** Get the iterator to the first element. */
     proto_loop_iterator<Coord,Index,Tracker> begin() const noexcept {
-        return {lpoints,data.loop_loc.start,data.loop_loc.size,tracker};
+        return {lpoints,data->loop_loc.start,data->loop_loc.size,tracker};
     }
 
     /** Get the end iterator */
     proto_loop_iterator<Coord,Index,Tracker> end() const noexcept {
-        return {lpoints,data.loop_loc.start,0,tracker};
+        return {lpoints,data->loop_loc.start,0,tracker};
     }
 
     /** Return the number of elements in this range. */
-    Index size() const noexcept { return data.loop_loc.size; }
+    Index size() const noexcept { return data->loop_loc.size; }
 
     /** Return a range representing the children of this polygon. */
     auto inner_loops() const noexcept {
-        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data.children,*tracker);
+        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data->children,*tracker);
     }
 };
 
-- 
2.43.0


From 5ca4903a94cd3bf9a9f0663b84f90d198f12d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 25/43] fix: include <utility> in rbtree_algorithms.hpp

---
 include/poly_ops/rbtree_algorithms.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/rbtree_algorithms.hpp b/include/poly_ops/rbtree_algorithms.hpp
index a44d301..a4f414b 100644
--- a/include/poly_ops/rbtree_algorithms.hpp
+++ b/include/poly_ops/rbtree_algorithms.hpp
@@ -29,6 +29,7 @@ remove some unneeded stuff. The original copyright notice is as follows: */
 
 #include <cassert>
 #include <bit>
+#include <utility>
 
 namespace poly_ops::detail {
 
-- 
2.43.0


From 49d7f7b5c5e4f9c9b602eea5f8173b0ddff96d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 26/43] fix: don't copy the list of top loops with the default
 memory resource

---
 include/poly_ops/clip.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index ee045fa..ade3ac8 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1410,7 +1410,7 @@ void replace_line_indices_with_loop_indices(
 }
 
 template<typename Index>
-std::pmr::vector<temp_polygon<Index>*> arrange_loops(
+void arrange_loops(
     const intr_array_t<Index> &ordered_loops,
     std::pmr::vector<temp_polygon<Index>> &loops,
     std::pmr::vector<temp_polygon<Index>*> &top)
@@ -1432,8 +1432,6 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
           next: ;
         }
     }
-
-    return top;
 }
 
 /* after calling this function, the items of "samples" are left in an
-- 
2.43.0


From 7c8d26085dbb4c1fc729dd4dad37863c6f3f88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:45 +0000
Subject: [PATCH 27/43] fix: don't use references to scan events after new
 events were added

---
 include/poly_ops/polydraw.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index c03a9cd..3762f9d 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -639,7 +639,8 @@ public:
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
+                /* a copy, since checking for intersections can add events */
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "SWAP {} and {} at {}",
@@ -652,7 +653,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                /* a copy, since checking for intersections can add events */
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "BACKWARD {} at {}",
@@ -668,7 +670,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                /* a copy, since checking for intersections can add events */
+                const auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "FORWARD {} at {}",
-- 
2.43.0


From 100209bda75d6984207fc77e9ac4cc7aad47578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:45 +0000
Subject: [PATCH 28/43] fix: don't swap segments back after they crossed

When more than two segments crossed at one point, they were swapped forever.
---
 include/poly_ops/polydraw.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 3762f9d..a7fcb6b 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -122,6 +122,8 @@ template<typename Coord> using cached_segment = poly_ops::detail::cached_segment
 template<typename T> constexpr size_t compound_int_size
     = (sizeof(T) + sizeof(large_ints::full_uint) - 1) / sizeof(large_ints::full_uint);
 
+/* "s1" must come before "s2" in the sweep. Segments that already crossed each
+other (their distance is increasing) are not considered to intersect. */
 template<typename Coord>
 bool intersects(
     const cached_segment<Coord> &s1,
@@ -142,14 +144,12 @@ bool intersects(
     if(s1.a == s2.a || s1.a == s2.b || s1.b == s2.a || s1.b == s2.b) return false;
 
     auto d = mul<Coord,Coord>(x1-x2,y3-y4) - mul<Coord,Coord>(y1-y2,x3-x4);
-    if(d == 0) return false;
+    if(d >= 0) return false;
 
     auto t_i = mul<Coord,Coord>(x1-x3,y3-y4) - mul<Coord,Coord>(y1-y3,x3-x4);
     auto u_i = mul<Coord,Coord>(x1-x3,y1-y2) - mul<Coord,Coord>(y1-y3,x1-x2);
 
-    if(d > 0) {
-        if(t_i <= 0 || t_i >= d || u_i <= 0 || u_i >= d) return false;
-    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
+    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
 
     auto qr = unmul<compound_int_size<Coord>>(mul(t_i,y2-y1) + mul(d,y1),d,modulo_t::euclid);
     intr_y.whole = static_cast<Coord>(qr.quot);
-- 
2.43.0


From 25f2b5943f97bdf333ddc44e6e9b48ff5c37a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 29/43] fix: swap segments that cross on a scan line before
 others start there

Segments that crossed exactly on a scan line were only swapped on the next one,
after starting segments were placed between segments in the wrong order.
---
 include/poly_ops/polydraw.hpp | 76 ++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a7fcb6b..1c494a4 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -218,7 +218,10 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* Segments starting at an intersection point can only be placed correctly after
+the segments intersecting there were swapped, but segments ending there have to
+be removed first for the others to be next to each other. */
+enum class event_type_t {backward,swap,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -635,57 +638,48 @@ public:
 
         for(; !rast.events.at_end() && std::cmp_less(y,height); ++y) {
             sweep.key_comp().current_y = y;
-            for(; !rast.events.at_end()
-                    && less_than_or_equal(rast.lpoints,rast.events.current(),y)
-                    && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
-            {
+            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y); rast.events.next(rast.lpoints)) {
                 /* a copy, since checking for intersections can add events */
                 const auto e = rast.events.current();
 
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "SWAP {} and {} at {}",
-                    rast.sweep_nodes[e.ab.a].value,
-                    rast.sweep_nodes[e.ab.b].value,
-                    e.intr_y);
+                if(e.type == event_type_t::swap) {
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "SWAP {} and {} at {}",
+                        rast.sweep_nodes[e.ab.a].value,
+                        rast.sweep_nodes[e.ab.b].value,
+                        e.intr_y);
 
-                rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+                    rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
 
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
-            }
-            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                /* a copy, since checking for intersections can add events */
-                const auto e = rast.events.current();
+                    POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+                } else if(e.type == event_type_t::backward) {
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "BACKWARD {} at {}",
+                        e.ab,
+                        e.ab.a_y(rast.lpoints));
 
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "BACKWARD {} at {}",
-                    e.ab,
-                    e.ab.a_y(rast.lpoints));
-
-                auto itr = sweep.erase(e.sweep_node);
-
-                if(itr != sweep.end() && itr != sweep.begin()) {
-                    rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
-                }
+                    auto itr = sweep.erase(e.sweep_node);
 
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
-            }
-            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                /* a copy, since checking for intersections can add events */
-                const auto e = rast.events.current();
+                    if(itr != sweep.end() && itr != sweep.begin()) {
+                        rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                    }
 
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "FORWARD {} at {}",
-                    e.ab,
-                    e.ab.a_y(rast.lpoints));
+                    POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+                } else {
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "FORWARD {} at {}",
+                        e.ab,
+                        e.ab.a_y(rast.lpoints));
 
-                auto [itr,inserted] = sweep.insert(e.sweep_node);
-                POLY_OPS_ASSERT(inserted);
+                    auto [itr,inserted] = sweep.insert(e.sweep_node);
+                    POLY_OPS_ASSERT(inserted);
 
-                if(itr != sweep.begin()) rast.check_intersection(std::prev(itr).index(),e.sweep_node,e.ab.a_y(rast.lpoints));
-                ++itr;
-                if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));
+                    if(itr != sweep.begin()) rast.check_intersection(std::prev(itr).index(),e.sweep_node,e.ab.a_y(rast.lpoints));
+                    ++itr;
+                    if(itr != sweep.end()) rast.check_intersection(e.sweep_node,itr.index(),e.ab.a_y(rast.lpoints));
 
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+                    POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+                }
             }
 
             POLY_OPS_ASSERT(rast.events.at_end() || !less_than_or_equal(rast.lpoints,rast.events.current(),y));
-- 
2.43.0


From dbb33d624d4997db39b7caabfcac79de7950426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 30/43] fix: draw nothing on canvases without width and clip to
 wide ones

The width minus one overflowed for a width of zero and for widths that the
coordinate type can't represent.
---
 include/poly_ops/polydraw.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 1c494a4..cb35144 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -6,6 +6,8 @@
 #include <vector>
 #include <span>
 #include <bit>
+#include <limits>
+#include <utility>
 #include <cassert>
 
 #include "base.hpp"
@@ -631,6 +633,9 @@ public:
     bool operator()(rasterizer<Coord> &rast,scan_line &sc) {
         using namespace detail;
 
+        const Coord max_x = std::cmp_less(width-1,std::numeric_limits<Coord>::max())
+            ? static_cast<Coord>(width-1) : std::numeric_limits<Coord>::max();
+
         if(suspended) {
             suspended = false;
             goto continue_point;
@@ -685,7 +690,7 @@ public:
             POLY_OPS_ASSERT(rast.events.at_end() || !less_than_or_equal(rast.lpoints,rast.events.current(),y));
             POLY_OPS_ASSERT(consistent_order(sweep));
 
-            if(y >= 0) {
+            if(y >= 0 && width > 0) {
                 winding = 0;
                 s_itr = sweep.begin();
 
@@ -695,7 +700,7 @@ public:
                         winding += s_itr->value.a_is_main(rast.lpoints) ? 1 : -1;
 
                         Coord x_start = x;
-                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y),0,static_cast<Coord>(width-1));
+                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y),0,max_x);
    
                         if(prev_winding) {
                             sc = {static_cast<unsigned int>(x),static_cast<unsigned int>(x_start),static_cast<unsigned int>(y),prev_winding};
-- 
2.43.0


From d569bc955dc61eac5e3bbc3361c9ffa1a6a3359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 31/43] fix: execute(op) on an rvalue clipper returns a range
 that owns its data

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index ade3ac8..81fca29 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2040,7 +2040,7 @@ public:
      * Perform a boolean operation and return the result.
      */
     template<bool TreeOut=false> auto execute(bool_op op) && {
-        return execute<TreeOut,null_tracker<Coord,Index>>(op,{});
+        return std::move(*this).template execute<TreeOut,null_tracker<Coord,Index>>(op,{});
     }
 
     Index &next_orig_i() noexcept { return _next_orig_i; }
-- 
2.43.0


From c6b1b741d71ad8e9b9a94c5b0fbecd4493868899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 32/43] fix: a call of add_loops or add_offsets that fails
 half-way keeps the dtypes of the arrays it added

---
 py/_polyops.pyx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 23933eb..644ef26 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -637,13 +637,19 @@ cdef class Clipper:
 
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
+        cdef _bool_set bset_raw
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip[0],loops,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_loop(self._clip[0],loop,bset_raw,self.calc_dtype,casting,NULL)
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
+        cdef _bool_set bset_raw
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip[0],loop,bset_raw,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -728,13 +734,19 @@ cdef class TrackedClipper:
 
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
+        cdef _bool_set bset_raw
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip.base,loops,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_loop(self._clip.base,loop,bset_raw,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
+        cdef _bool_set bset_raw
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        bset_raw = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip.base,loop,bset_raw,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From a97904ee0ba4d7ac4481f34a3d03192466ffbffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:06 +0000
Subject: [PATCH 33/43] fix: read every point of an array with zero strides in
 the Python module

The end of a run of elements was recognised by its address, which is also the
address of its start if the stride is zero (e.g. numpy.broadcast_to), so only
the first point of such an array was read.
---
 py/common.pxd | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/common.pxd b/py/common.pxd
index 7ab98f7..66e8f22 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -23,7 +23,10 @@ cdef extern from *:
 
         char *data;
         npy_intp stride;
-        const char *run_end;
+
+        /* the number of elements left in the current run; the end of a run
+        cannot be recognised by its address since the stride can be zero */
+        npy_intp remaining;
 
         polyops_npy_range(PyArrayObject *ar,int flag,NPY_CASTING casting) noexcept : itr{nullptr}, itr_next{nullptr}
         {
@@ -59,7 +62,7 @@ cdef extern from *:
         void read_pointers() {
             data = *data_ptr;
             stride = *stride_ptr;
-            run_end = data + *inner_size_ptr * stride;
+            remaining = *inner_size_ptr;
         }
 
         npy_point_iterator begin() noexcept;
@@ -74,7 +77,7 @@ cdef extern from *:
         polyops_npy_range *range;
 
         coord_t &operator[](npy_intp i) const noexcept {
-            assert((range->data + i*range->stride) != range->run_end);
+            assert(i < range->remaining);
             return *reinterpret_cast<coord_t*>(range->data + i*range->stride);
         }
 
@@ -104,7 +107,8 @@ cdef extern from *:
             assert(range && range->data);
 
             range->data += range->stride*2;
-            if(range->data == range->run_end) {
+            range->remaining -= 2;
+            if(range->remaining == 0) {
                 if(!(*range->itr_next)(range->itr)) range->data = nullptr;
                 else range->read_pointers();
             }
-- 
2.43.0


From 9da2525b9c07a8bbeb365d8e492eae73c2f6b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:47 +0000
Subject: [PATCH 34/43] fix: running out of memory while the last point of a
 loop is stored ended the process

The last point of a loop is added by the destructor of clipper::point_sink,
which was noexcept. The exception now reaches the caller, unless there is
another one on its way already, and an incomplete loop is dropped.
---
 include/poly_ops/clip.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 81fca29..cf038b9 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <numbers>
 #include <cstddef>
+#include <exception>
 #include <utility>
 #include <memory_resource>
 #include <iterator>
@@ -1856,6 +1857,9 @@ public:
         Index first_orig_i;
         Index second_orig_i;
 
+        // the number of exceptions in flight when this was created
+        int exceptions;
+
         bool_set cat;
         bool started;
 
@@ -1863,6 +1867,7 @@ public:
             : n{n},
             pt{pt},
             first_i{Index(n.lpoints.size())},
+            exceptions{std::uncaught_exceptions()},
             cat{cat},
             started{false} {}
         point_sink(const point_sink&) = delete;
@@ -1874,6 +1879,7 @@ public:
             first_i{b.first_i},
             first_orig_i{b.first_orig_i},
             second_orig_i{b.second_orig_i},
+            exceptions{b.exceptions},
             cat{b.cat},
             started{b.started}
         {
@@ -1887,7 +1893,9 @@ public:
         void operator()(const point_t<Coord> &p) { (*this)(p,n._next_orig_i); }
         Index next_orig_i() const { return n._next_orig_i; }
         Index &next_orig_i() { return n._next_orig_i; }
-        ~point_sink();
+
+        /* The last point isn't added until this is called, which may throw */
+        ~point_sink() noexcept(false);
     };
 
     explicit clipper(std::pmr::memory_resource *_contig_mem=nullptr) :
@@ -2084,7 +2092,7 @@ void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-clipper<Coord,Index>::point_sink::~point_sink() {
+clipper<Coord,Index>::point_sink::~point_sink() noexcept(false) {
     /* This code doesn't work with polygons with fewer than three points. A
     polygon with two points almost works, except the two lines have the same
     end-point indices. The sweep sets expect line segments with unique indices.
@@ -2092,7 +2100,17 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     if(started) [[likely]] {
         /* the last point is ignored if it's the same as the first point, unless
         it is the first point */
-        if(n.lpoints.size() == std::size_t(first_i) || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        try {
+            if(n.lpoints.size() == std::size_t(first_i) || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        } catch(...) {
+            // the loop can't be completed, so none of it is kept
+            while(n.lpoints.size() > std::size_t(first_i)) n.lpoints.pop_back();
+
+            /* if this was called because of another exception, that is the one
+            that needs to be reported */
+            if(std::uncaught_exceptions() > exceptions) return;
+            throw;
+        }
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From 9c7ca05cec1d2c076974b4b1295f27eab4c62ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:29 +0000
Subject: [PATCH 35/43] fix: running out of memory while the last point of a
 loop is given to the rasterizer ended the process

See the previous commit; the same applies to rasterizer::point_sink.
---
 include/poly_ops/polydraw.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index cb35144..a09ded2 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <span>
 #include <bit>
+#include <exception>
 #include <limits>
 #include <utility>
 #include <cassert>
@@ -465,17 +466,23 @@ public:
         rasterizer &n;
         poly_ops::point_t<Coord> prev;
         std::size_t first_i;
+
+        // the number of exceptions in flight when this was created
+        int exceptions;
+
         bool started;
 
-        point_sink(rasterizer &n) : n(n), started(false) {}
+        point_sink(rasterizer &n) : n(n), exceptions(std::uncaught_exceptions()), started(false) {}
         point_sink(const point_sink&) = delete;
-        point_sink(point_sink &&b) : n(b.n), prev(b.prev), first_i{b.first_i}, started(b.started) {
+        point_sink(point_sink &&b) : n(b.n), prev(b.prev), first_i{b.first_i}, exceptions(b.exceptions), started(b.started) {
             b.started = false;
         }
 
     public:
         void operator()(const poly_ops::point_t<Coord> &p);
-        ~point_sink();
+
+        /* The last point isn't added until this is called, which may throw */
+        ~point_sink() noexcept(false);
     };
 
     rasterizer() : ran(false) {
@@ -528,10 +535,20 @@ skip:
 }
 
 template<typename Coord>
-rasterizer<Coord>::point_sink::~point_sink() {
+rasterizer<Coord>::point_sink::~point_sink() noexcept(false) {
     if(started) [[likely]] {
         if(prev != n.lpoints.back().data && prev != n.lpoints[first_i].data) [[likely]] {
-            n.lpoints.emplace_back(prev,0);
+            try {
+                n.lpoints.emplace_back(prev,0);
+            } catch(...) {
+                // the loop can't be completed, so none of it is kept
+                while(n.lpoints.size() > first_i) n.lpoints.pop_back();
+
+                /* if this was called because of another exception, that is the
+                one that needs to be reported */
+                if(std::uncaught_exceptions() > exceptions) return;
+                throw;
+            }
         }
 
         std::size_t new_points = n.lpoints.size() - static_cast<std::size_t>(first_i);
-- 
2.43.0


From bf6b93d024372be00b9428f37cee8cb98251afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:55 +0000
Subject: [PATCH 36/43] fix: an exception of a tracker's get_value ended the
 process

proto_loop_iterator::operator* was noexcept whatever the tracker does.
---
 include/poly_ops/clip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index cf038b9..eaa0d0c 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -127,7 +127,7 @@ template<typename Coord,typename Index> struct null_tracker_ptr {
  */
 template<typename Coord,typename Index> struct null_tracker {
     i_point_tracker<Index> *callbacks() { return nullptr; }
-    point_t<Coord> get_value(Index,const point_t<Coord> &p) const { return p; }
+    point_t<Coord> get_value(Index,const point_t<Coord> &p) const noexcept(std::is_nothrow_copy_constructible_v<Coord>) { return p; }
 
     null_tracker_ptr<Coord,Index> operator&() const noexcept { return {}; }
 
@@ -1621,7 +1621,7 @@ public:
         return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
-    value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
+    value_type operator*() const noexcept(noexcept(std::declval<const Tracker&>().get_value(std::declval<Index>(),std::declval<const point_t<Coord>&>()))) {
         return (*tracker).get_value(i,lpoints[i].data);
     }
 
-- 
2.43.0


From 35b3adbd6ecf5e1b90cde3a90c6918e79238be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:50 +0000
Subject: [PATCH 37/43] fix: loops with coincident edges could be missing from
 tree output

arrange_loops dropped a loop if none of the loops around it was inside of
exactly one loop less (or failed an assertion), but loops with coincident edges
don't always agree on which one is inside of which, e.g. when normalizing.
---
 include/poly_ops/clip.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index eaa0d0c..ba831e5 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1421,17 +1421,20 @@ void arrange_loops(
         std::views::iota(Index(0),Index(loops.size()))));
 
     for(const auto& item : ordered_loops) {
-        if(item.hits.empty()) top.push_back(&loops[item.p]);
-        else {
-            for(Index outer_i : item.hits) {
-                if(ordered_loops[outer_i].hits.size() == (item.hits.size() - 1)) {
-                    loops[outer_i].children.push_back(&loops[item.p]);
-                    goto next;
-                }
-            }
-            POLY_OPS_ASSERT(false);
-          next: ;
+        /* The innermost loop around this one is the one that is inside the most
+        loops. Normally, that is one less than this one, but that can't be
+        relied upon, because loops with coincident edges don't always agree on
+        which is inside of which. Having fewer hits is required, so that no
+        loops end up being inside each other. */
+        const intr_t<Index> *outer = nullptr;
+        for(Index outer_i : item.hits) {
+            const intr_t<Index> &candidate = ordered_loops[outer_i];
+            if(candidate.hits.size() < item.hits.size()
+                && (!outer || candidate.hits.size() > outer->hits.size())) outer = &candidate;
         }
+
+        if(outer) loops[outer->p].children.push_back(&loops[item.p]);
+        else top.push_back(&loops[item.p]);
     }
 }
 
-- 
2.43.0


From f78238fc785033965cac539e8fac71eb85153b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:49 +0000
Subject: [PATCH 38/43] fix: repeated points at the end of an open line were
 offset back and forth

---
 include/poly_ops/offset.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 3831b5c..e2f31d2 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -260,12 +260,18 @@ void _add_offset_open(
                     prev1);
                 end_orig_i = orig_i;
 
+                /* go back, starting with the point before "prev2b" (everything
+                after "prev2b" is equal to "prev2b" or "prev1b") */
                 _add_offset_tail_open<Coord,Index>(
                     sink,
-                    std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
+                    std::ranges::subrange{
+                        std::next(
+                            std::ranges::rbegin(input),
+                            static_cast<std::ranges::range_difference_t<Input>>(end_orig_i - prev2b_i)),
+                        std::ranges::rend(input)},
                     magnitude,
                     arc_step_size,
-                    signed_add(end_orig_i,-3),
+                    signed_add(prev2b_i,-1),
                     -1,
                     prev1b_i,
                     prev2b_i,
-- 
2.43.0


From 94c8be9066bdd142ce07145a2c912f6952658a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:49 +0000
Subject: [PATCH 39/43] fix: carries were lost without compiler extensions when
 two words add up to all ones

---
 include/poly_ops/large_ints.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index f8fd9ab..ef21512 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -569,26 +569,24 @@ namespace detail {
         out = a + b;
         carry_t cr = out < a;
         out += carry;
-        return (out < a) | cr;
+        return (out < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         a = a + b;
         carry_t cr = a < b;
         a += carry;
-        return (a < b) | cr;
+        return (a < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a - b;
-        carry_t cr = out > a;
-        out -= carry;
-        return (out > a) | cr;
+        full_uint diff = a - b;
+        out = diff - carry;
+        return (out > diff) | (diff > a);
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         full_uint prev_a = a;
-        a = a - b;
-        carry_t cr = a > prev_a;
-        a -= carry;
-        return (a > prev_a) | cr;
+        full_uint diff = a - b;
+        a = diff - carry;
+        return (a > diff) | (diff > prev_a);
     }
 #endif
 
-- 
2.43.0


From 896fb10bae2f0ce8ec7cd49be869fef84344d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:49 +0000
Subject: [PATCH 40/43] fix: products of unsigned multi-word by one-word
 integers had no value

---
 include/poly_ops/large_ints.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ef21512..222a043 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1096,6 +1096,8 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
             if constexpr(Signed) {
                 offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                 return compound_int<Na+1>{r};
+            } else {
+                return r;
             }
         } else {
             compound_uint<Na+Nb> a_tmp{a};
-- 
2.43.0


From c09dd0965f823de98c264557061e6cd78fbbb931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:34 +0000
Subject: [PATCH 41/43] fix: assign all words when assigning a different type
 to a compound_xint

The assignment to the reference returned by lo() either did nothing or did not
compile.
---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 222a043..c03f482 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
-- 
2.43.0


From 2456f85421f30c7d7e63312979fd275ab8b4c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:34 +0000
Subject: [PATCH 42/43] fix: don't cut the sign bit from remainders of signed
 by unsigned division

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index c03f482..761a88b 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1340,7 +1340,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             udivmod_shift_sub<N>(a_tmp.data(),b_tmp.data(),r.quot.data());
         }
 
-        r.rem = compound_int<int_count<false,U>>(a_tmp);
+        r.rem = compound_int<int_count<true,U>>(a_tmp);
 
         if constexpr(Mod == modulo_t::truncate_v) {
             if(sa ^ sb) r.quot = -r.quot;
-- 
2.43.0


From 52dfb4f929cdb399ae818963a09f31fb8f55371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:31 +0000
Subject: [PATCH 43/43] fix: the one-call functions took a pointer to a
 specific memory resource for a tracker

union_op, normalize_op, boolean_op and offset are documented to take a tracker
only if it satisfies point_tracker, but that was only asserted after the
overload was chosen, so union_op(x,&resource), where resource is a
std::pmr::monotonic_buffer_resource, didn't compile.
---
 include/poly_ops/clip.hpp   | 6 +++---
 include/poly_ops/offset.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index ba831e5..199b08b 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2634,6 +2634,7 @@ public:
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+    requires point_tracker<Tracker,Coord,Index>
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -2642,7 +2643,6 @@ union_op(
     Tracker &&tracker,
     std::pmr::memory_resource *contig_mem=nullptr)
 {
-    static_assert(point_tracker<Tracker,Coord,Index>);
     static_assert(point_range_or_range_range<Input,Coord>);
     static_assert(coordinate<Coord>);
     static_assert(std::integral<Index>);
@@ -2679,6 +2679,7 @@ auto union_op(Input &&input,std::pmr::memory_resource *contig_mem=nullptr) {
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+    requires point_tracker<Tracker,Coord,Index>
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -2687,7 +2688,6 @@ normalize_op(
     Tracker &&tracker,
     std::pmr::memory_resource *contig_mem=nullptr)
 {
-    static_assert(point_tracker<Tracker,Coord,Index>);
     static_assert(point_range_or_range_range<Input,Coord>);
     static_assert(coordinate<Coord>);
     static_assert(std::integral<Index>);
@@ -2729,6 +2729,7 @@ auto normalize_op(Input &&input,std::pmr::memory_resource *contig_mem=nullptr) {
  * `Tracker` must satisfy `point_tracker<Coord,Index>`.
  */
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename SInput,typename CInput,typename Tracker>
+    requires point_tracker<Tracker,Coord,Index>
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -2739,7 +2740,6 @@ boolean_op(
     Tracker &&tracker,
     std::pmr::memory_resource *contig_mem=nullptr)
 {
-    static_assert(point_tracker<Tracker,Coord,Index>);
     static_assert(point_range_or_range_range<CInput,Coord>);
     static_assert(point_range_or_range_range<SInput,Coord>);
     static_assert(coordinate<Coord>);
diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e2f31d2..fb4a521 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -506,6 +506,7 @@ void add_offset_clip(
 }
 
 template<bool TreeOut,typename Coord,typename Index=std::size_t,typename Input,typename Tracker>
+    requires point_tracker<Tracker,Coord,Index>
 std::conditional_t<TreeOut,
     temp_polygon_tree_range<Coord,Index,Tracker>,
     temp_polygon_range<Coord,Index,Tracker>>
@@ -517,7 +518,6 @@ offset(
     bool closed=true,
     std::pmr::memory_resource *contig_mem=nullptr)
 {
-    static_assert(point_tracker<Tracker,Coord,Index>);
     static_assert(point_range_or_range_range<Input,Coord>);
     static_assert(coordinate<Coord>);
     static_assert(std::integral<Index>);
-- 
2.43.0

