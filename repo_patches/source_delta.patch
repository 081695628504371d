From 628c6a9e1aab3c2b1de4515462f0584e5970dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 01/27] fix: compare window positions of
 matrix_traversal_iterator

equal() and distance_to() named matrix_traversal_iterator<Other, N> with its
default value and reference types, so two window positions could be neither
compared nor subtracted.
---
 src/cuda/matrix_traversal_iterator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cuda/matrix_traversal_iterator.hpp b/src/cuda/matrix_traversal_iterator.hpp
index f6250de..6139065 100644
--- a/src/cuda/matrix_traversal_iterator.hpp
+++ b/src/cuda/matrix_traversal_iterator.hpp
@@ -117,8 +117,9 @@ private:
             return first + o;
     }
 
-    template <typename Other>
-    __host__ __device__ bool equal(const matrix_traversal_iterator<Other, N>& other) const
+    template <typename Other, typename V, typename R>
+    __host__ __device__ bool
+    equal(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         return detail::equal(current, other.current);
     }
@@ -170,9 +171,9 @@ private:
         unravel<N>(n, dist, current);
     }
 
-    template <typename Other>
+    template <typename Other, typename V, typename R>
     __host__ __device__ diff_t
-    distance_to(const matrix_traversal_iterator<Other, N>& other) const
+    distance_to(const matrix_traversal_iterator<Other, N, V, R>& other) const
     {
         // assumes that first, n, and stride are identical between the two.
         return ravel<N>(n, other.current) - ravel<N>(n, current);
-- 
2.43.0


From ae343701186195d7ce879a9b81e1b38864bbda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 02/27] fix: jumps of forward_stencil_iterator over block ends

A jump back that lands exactly on the start of a block counted one rollover
too many, a jump to the end position left the iterator at another place than
counting up to it, and a jump by 0 of an empty traversal divided by 0.
---
 src/cuda/forward_stencil_iterator.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..e0b7402 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -120,23 +120,21 @@ private:
 
     __host__ __device__ void advance(diff_t dist)
     {
+        if (dist == 0) return;
+
         //  need to add correct multiples of the stencil_stride to compensate for dist
         //  causing our stencil to "rollover".
         distance_to_last -= dist;
 
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
-        int at_last = !(distance_to_last);
-
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
-        // if (distance_to_last == 0) {
-        //     iter_dist -= (stencil_stride-1);
-        //     current_distance = max_stride_distance;
-        // }
+        auto rollovers = base_dist / max_stride_distance;
+        // round towards negative infinity when we move back over a "bad" point
+        rollovers -= base_dist % max_stride_distance < 0;
+        // the "last" position is not followed by a rollover
+        rollovers -= !(distance_to_last);
+
+        current_distance = base_dist - rollovers * max_stride_distance;
+        auto iter_dist = dist + rollovers * stencil_stride;
 
         thrust::advance(first, iter_dist);
     }
-- 
2.43.0


From c4694d089f91aec139b753a57bba2664a93d0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 03/27] fix: size of strided bounds counts the last partial
 step

with_domain(st.window(), ...) ran one cell short per direction whenever the
extent is not a multiple of the stride.
---
 src/cuda/md_bounds.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..057a2c8 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,8 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    // number of indices first, first + stride, ... below last
+    int size() const { return (last - first + stride - 1) / stride; }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
-- 
2.43.0


From 80447ee868229a7748688dbbf9118d5b90806bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 04/27] fix: operand order of array op stencil_proxy

The iterator of an array on the left of a proxy that already carries arrays was
stored first although the proxy reads it last, so the arrays swapped places.
---
 src/cuda/stencil_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..56b77ef 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -135,8 +135,9 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
             else
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
+            // the proxy with index `N` looks for its iterator at `N - 1`
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0


From 97189ca3a602ad8e81faa03b71292d9e2f2e3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 05/27] fix: coarse lookup over a stepped fine range

---
 src/cuda/coarse_to_fine_iterator.hpp | 22 +++++++++++++++-------
 src/cuda/md_device_span.hpp          |  5 +++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/cuda/coarse_to_fine_iterator.hpp b/src/cuda/coarse_to_fine_iterator.hpp
index f5dbc06..d9bc02e 100644
--- a/src/cuda/coarse_to_fine_iterator.hpp
+++ b/src/cuda/coarse_to_fine_iterator.hpp
@@ -47,11 +47,13 @@ struct coarse_to_fine_iterator
 
 public:
     __host__ __device__
-    coarse_to_fine_iterator(Iter first, int ratio, int stride, int fine_index)
+    coarse_to_fine_iterator(
+        Iter first, int ratio, int stride, int fine_index, int fine_step = 1)
         : first{first},
           r{ratio},
           s{stride},
           fi{fine_index},
+          fs{fine_step},
           ci{detail::coarse_index(ratio, fine_index)}
     {
     }
@@ -72,31 +74,37 @@ private:
         return fi == other.fi;
     }
 
-    __host__ __device__ void increment() { ++fi; }
+    __host__ __device__ void increment() { fi += fs; }
 
-    __host__ __device__ void decrement() { --fi; }
+    __host__ __device__ void decrement() { fi -= fs; }
 
-    __host__ __device__ void advance(diff_t dist) { fi += dist; }
+    __host__ __device__ void advance(diff_t dist) { fi += dist * fs; }
 
     template <typename Other>
     __host__ __device__ diff_t
     distance_to(const coarse_to_fine_iterator<Other>& other) const
     {
         // assumes that first, n, and stride are identical between the two.
-        return other.fi - fi;
+        return (other.fi - fi) / fs;
     }
 
     Iter first;
     int r;
     int s;
     int fi; // fine index
+    int fs; // step between fine indices
     int ci; // base coarse index
 };
 
 template <auto I, auto N, typename Iter>
 coarse_to_fine_iterator<Iter>
-make_coarse_to_fine(Iter it, const int (&sz)[N], const int (&ci)[N], int fi, int ratio)
+make_coarse_to_fine(Iter it,
+                    const int (&sz)[N],
+                    const int (&ci)[N],
+                    int fi,
+                    int ratio,
+                    int fine_step = 1)
 {
     return coarse_to_fine_iterator<Iter>{
-        it + ravel<N>(sz, ci), ratio, stride_dim<I, N>(sz), fi};
+        it + ravel<N>(sz, ci), ratio, stride_dim<I, N>(sz), fi, fine_step};
 }
diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 06937d0..c7c3578 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -521,9 +521,10 @@ public:
         using Base = index_list<Order...>;
         static constexpr auto I = missing_index_v<Fine, Coarse>;
 
-        // Extract the fine index lower bound
+        // Extract the fine index lower bound and step
         std::tuple<lazy::dir_bounds<FO>&...> f{fbnds...};
         int fi = std::get<map_index_v<Fine, I>>(f).lb();
+        int fs = std::get<map_index_v<Fine, I>>(f).stride;
 
         // Put coarse lower bounds in Order....
         int lb_bnds[N] = {std::get<map_index_v<Coarse, CO>>(cbnds).lb()...};
@@ -539,7 +540,7 @@ public:
             sz[i] = b[i].size();
         }
 
-        return make_coarse_to_fine<map_index_v<Base, I>, N>(begin(), sz, lb, fi, r);
+        return make_coarse_to_fine<map_index_v<Base, I>, N>(begin(), sz, lb, fi, r, fs);
     }
 
     auto begin() { return v; }
-- 
2.43.0


From ced714ee34ab17615d7770eedb8f5ff454313a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 06/27] fix: dot product over reordered or stepped domains

---
 src/cuda/md_device_span.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index c7c3578..65fbc5a 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -119,8 +119,9 @@ make_gradient_transform(Vec&& vec, T h)
 // offsets.  We are here assuming that dot products are always done with "stencil" spans
 // (where W is the last dim) and offset_helpers.
 //
-// Note that we manually flip the order of the strides here to match the reversed order of
-// the offsets.  This is brittle and should be fixed at some point
+// The components of an offset are ordered I, J, K regardless of the order of the domain,
+// so the strides passed in here must have that order as well.  Offsets count cells, so the
+// strides must not include the step of the domain
 //
 template <int N>
 struct dot_impl {
@@ -128,10 +129,9 @@ struct dot_impl {
     thrust::device_ptr<int> offsets;
     int n;
 
-    template <typename U>
-    dot_impl(U&& u, thrust::device_ptr<int> o, int n) : offsets{o}, n{n}
+    dot_impl(const int (&s)[N], thrust::device_ptr<int> o, int n) : offsets{o}, n{n}
     {
-        for (int i = 0; i < N; i++) stride[N - 1 - i] = u.stride_dim(i);
+        for (int i = 0; i < N; i++) stride[i] = s[i];
     }
 
     template <typename Tp>
@@ -167,8 +167,18 @@ struct dot_helper : iter_math<dot_helper<U, V>> {
         thrust::device_ptr<int> o = v.o;
         int n = std::get<N>(u.dir_bounds()).size();
 
+        // order the strides by direction: I, J, K
+        int dir[] = {O...};
+        int step[] = {bnds.stride...};
+        int stride[N];
+        for (int i = 0; i < N; i++) {
+            int c = 0;
+            for (int j = 0; j < N; j++) c += dir[j] > dir[i];
+            stride[c] = v_it.stride_dim(i) / step[i];
+        }
+
         return thrust::make_transform_iterator(thrust::make_zip_iterator(u_it, v_it),
-                                               dot_impl<N>{v_it, o, n});
+                                               dot_impl<N>{stride, o, n});
     }
 };
 
-- 
2.43.0


From ce144441f1137286ccd93e79843eac2ce1630da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 07/27] fix: right-hand side bounds of 1-D Gauss-Seidel

---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From 4ef97acdb7bead4c5053c7109aa0487ecb9a7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 08/27] fix: red-black start of 2-D rows with negative index

---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..403d012 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From 7f57a79493743e75e7c8bb21787d71c848b24309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 09/27] fix: loop bounds of 2-D stencil application on a patch

---
 m4/applystencil2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
-- 
2.43.0


From 694cd1de932d530fe1bac7d83bcaa1afc19e3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 10/27] fix: loop bounds of 2-D system right-hand side on a
 patch

---
 m4/celladjustrhs2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From 0f54dbac8d3b6f546603169e280865c9b341d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 11/27] fix: block matrix reads one entry past the stencil

---
 m4/cellblocksmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellblocksmooth3d.m4 b/m4/cellblocksmooth3d.m4
index 02e2cff..d13db88 100644
--- a/m4/cellblocksmooth3d.m4
+++ b/m4/cellblocksmooth3d.m4
@@ -25,7 +25,7 @@ c Create a dense matrix from stencil.
             do i=0,bSizeX-1
                idx = k*bSizeY*bSizeX+j*bSizeX+i
                A(idx,idx) = stencil(0,i,j,k)
-               do s=1,stencilSize
+               do s=1,stencilSize-1
                   ix = i+offset(0,s)
                   iy = j+offset(1,s)
                   iz = k+offset(2,s)
-- 
2.43.0


From 3027fb1bd04b1250a532fbf0f4f15023303fa295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 12/27] fix: coefficient of the third flux of
 nodediffusionflux3d

---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From 06b22a45e769608b37fe456a47481afaf056b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 13/27] fix: third flux in 3-D node operator application

---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From 9c100f555eb0f9911748d5345d4dfbdde3ede386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 14/27] fix: 2-D Dirichlet diagonal adjustment names the cell
 inside the patch

---
 m4/celldiffusionstencilcoeffs2d.m4 | 8 ++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 8 ++++----
 src/cuda/cd_stencil_2d_cuda.cpp    | 4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index dc41061..9730fad 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -291,26 +291,26 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(ie0+side,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(ie1+side,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 10eb005..49038d4 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -280,26 +280,26 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(ie0+side,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(ie1+side,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 7362735..d353bcb 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -191,10 +191,10 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pj, Ib{pi0 - side + 1, pi0 - side + 1});
+            bt0(f, b0.shift_x(side), pj, Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1});
             return;
         case 1:
-            bt0(f, b1, Jb{pj0 - side + 1, pj0 - side + 1}, pi);
+            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);
             return;
         } // switch (dir)
         break;
-- 
2.43.0


From 4b179b4f581564c35f3f8323c52943c581ccfa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 15/27] fix: 3-D Dirichlet diagonal adjustment uses the
 boundary face

---
 m4/celldiffusionstencilcoeffs3d.m4 | 6 +++---
 src/cuda/cd_stencil_3d_cuda.cpp    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 288701e..2765e1e 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -400,7 +400,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(ie0+side,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
@@ -415,7 +415,7 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(ie1+side,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
@@ -430,7 +430,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(ie2+side,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index da2e43a..3cf701a 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -239,13 +239,13 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pk, pj, pil);
+            bt0(f, b0.shift_x(side), pk, pj, pil);
             break;
         case 1:
-            bt0(f, b1, pk, pjl, pi);
+            bt0(f, b1.shift_y(side), pk, pjl, pi);
             break;
         case 2:
-            bt0(f, b2, pkl, pj, pi);
+            bt0(f, b2.shift_z(side), pkl, pj, pi);
             break;
         } // switch (dir)
         break;
-- 
2.43.0


From 8eb5f61eab8b449c5c9b1d2daad3308151f09c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 16/27] fix: 3-D node Dirichlet diagonal adjustments name the
 cell inside the patch

---
 m4/nodediffusionstencilcoeffs3d.m4 | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 0be0e62..66d2d34 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -393,7 +393,7 @@ c
          endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -402,13 +402,13 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(ie0+side,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -417,13 +417,13 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(ie1+side,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -432,7 +432,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(ie2+side,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
@@ -589,7 +589,7 @@ c
             endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -604,7 +604,7 @@ c
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -619,7 +619,7 @@ c
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-- 
2.43.0


From dd0e3cbeb81e2fd2fbdcb4901db1b63a9b56b882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 17/27] fix: wrong indices in 3-D node stencil adjustments

---
 m4/nodediffusionstencilcoeffs3d.m4 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 66d2d34..6be1a6e 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -729,7 +729,7 @@ c
          else if (interporder .eq. 2) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-                  factor=dr1*beta*b1(edge,i,j)/(h**2)
+                  factor=dr1*beta*b2(edge,i,j)/(h**2)
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                enddo
             enddo
@@ -945,7 +945,7 @@ c
                   factor=beta*b1(ie1,k,i)
                   factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -984,7 +984,7 @@ c
                   factor=beta*b2(ie2,i,j)
                   factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1256,7 +1256,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -1293,7 +1293,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1657,7 +1657,7 @@ c
             enddo
          endif
       elseif (direction.eq.2) then
-         ie2 = pfirst1-side+1
+         ie2 = pfirst2-side+1
          if(side .eq. 0) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-- 
2.43.0


From 920af2f025a55eef9f533f3ee482a1720ff2af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 18/27] fix: second-order Robin ghost weights the second inward
 cell by beta

---
 m4/cellsetcorrectionbc1d.m4        |  4 ++--
 m4/cellsetcorrectionbc2d.m4        | 12 ++++++------
 m4/cellsetcorrectionbc3d.m4        | 24 ++++++++++++------------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  2 +-
 src/cuda/cd_correct_bc_2d_cuda.cpp |  4 ++--
 src/cuda/cd_correct_bc_3d_cuda.cpp |  4 ++--
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index a8274f4..40663d5 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -95,7 +95,7 @@ c  Will do linear extrapolation
               b=d0(ilo)
               coeff(1)=8.0*alpha*b-6.0*beta*h
 	      coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -120,7 +120,7 @@ c  Will do linear extrapolation
             else if ( extrapOrder .eq. 2) then
               b=d0(ihi+1)
               coeff(1)=(8.0*alpha*b-6.0*beta*h)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/m4/cellsetcorrectionbc2d.m4 b/m4/cellsetcorrectionbc2d.m4
index 69dad4f..370ea62 100755
--- a/m4/cellsetcorrectionbc2d.m4
+++ b/m4/cellsetcorrectionbc2d.m4
@@ -124,7 +124,7 @@ c  Will do linear extrapolation
                      b=d0(ilo,j)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -160,7 +160,7 @@ c  Will do linear extrapolation
                      b=d0(ihi+1,j)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
@@ -196,7 +196,7 @@ c  Will do linear extrapolation
                      b=d1(jlo, i)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jlo-1)=coeff(1)*u(i, jlo)+coeff(2)*u(i, jlo+1)
                   endif
                end do
@@ -232,7 +232,7 @@ c  Will do linear extrapolation
                      b=d1(jhi+1,i)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jhi+1)=coeff(1)*u(i, jhi)+coeff(2)*u(i, jhi-1)
                   endif
                end do
@@ -363,7 +363,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -396,7 +396,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
diff --git a/m4/cellsetcorrectionbc3d.m4 b/m4/cellsetcorrectionbc3d.m4
index 4d17887..0cc5a7a 100755
--- a/m4/cellsetcorrectionbc3d.m4
+++ b/m4/cellsetcorrectionbc3d.m4
@@ -153,7 +153,7 @@ c  Will do linear extrapolation
                  b=d0(ilo,j,k)
                  coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                  coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                 coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                 coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                  u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
                 end do
                end do
@@ -203,7 +203,7 @@ c  Will do linear extrapolation
                   b=d0(ihi+1,j,k)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
                  end do
                enddo
@@ -252,7 +252,7 @@ c  Will do linear extrapolation
                   b=d1(jlo,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
                  end do
                enddo
@@ -301,7 +301,7 @@ c  Will do linear extrapolation
                   b=d1(jhi+1,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
                  end do
                enddo
@@ -350,7 +350,7 @@ c  Will do linear extrapolation
                   b=d2(klo,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
                  end do
                enddo
@@ -399,7 +399,7 @@ c  Will do linear extrapolation
                   b=d2(khi+1,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
                  end do
                enddo
@@ -621,7 +621,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
@@ -671,7 +671,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
@@ -720,7 +720,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
@@ -769,7 +769,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
@@ -818,7 +818,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
@@ -867,7 +867,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index c7f1616..8397c2c 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -67,7 +67,7 @@ void cd_correct_bc_1d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_2d_cuda.cpp b/src/cuda/cd_correct_bc_2d_cuda.cpp
index 3f0df2c..495f98d 100644
--- a/src/cuda/cd_correct_bc_2d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_2d_cuda.cpp
@@ -78,7 +78,7 @@ void cd_correct_bc_2d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -179,7 +179,7 @@ void cd_correct_bc_2d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_3d_cuda.cpp b/src/cuda/cd_correct_bc_3d_cuda.cpp
index 2a29b53..e724fff 100644
--- a/src/cuda/cd_correct_bc_3d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_3d_cuda.cpp
@@ -82,7 +82,7 @@ void cd_correct_bc_3d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -238,7 +238,7 @@ void cd_correct_bc_3d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From 32c5be8852cc89fd80c89e8490a19ed23eed513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 19/27] fix: 1-D Poisson Robin ghosts use the given alpha and
 beta

---
 m4/cellsetcorrectionbc1d.m4        | 14 ++++++++------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  8 +++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index 40663d5..fbd3f48 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -189,12 +189,13 @@ c  Will do linear extrapolation
             u(ilo-1) = u(ilo)
          else if ( bdryType .eq. ROBIN ) then
             if( extrapOrder .eq. 1) then
-               factor=(4.0-h)/(4.0+h)
+               factor=(2.0*alpha-h*beta)/(2.0*alpha+h*beta)
                u(ilo-1)=factor*u(ilo)
             else if ( extrapOrder .eq. 2) then
                b=1.0
-               coeff(1)=(16.0*b-6.0*h)/(16.0*b+3.0*h)
-               coeff(2)=h/(16.0*b+3.0*h)
+               coeff(1)=8.0*alpha*b-6.0*beta*h
+               coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
+               coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
                u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -213,12 +214,13 @@ c  Will do linear extrapolation
             u(ihi+1) = u(ihi)
          else if ( bdryType .eq. ROBIN ) then
             if( extrapOrder .eq. 1) then
-               factor=(4.0-h)/(4.0+h)
+               factor=(2.0*alpha-h*beta)/(2.0*alpha+h*beta)
                u(ihi+1)=factor*u(ihi)
             else if ( extrapOrder .eq. 2) then
                b=1.0
-               coeff(1)=(16.0*b-6.0*h)/(3.0*h+16.0*b)
-               coeff(2)=h/(3.0*h+16.0*b)
+               coeff(1)=8.0*alpha*b-6.0*beta*h
+               coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
+               coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
                u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index 8397c2c..a12ed5d 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -126,11 +126,13 @@ void cd_correct_bc_1d_cuda<T>::set_poisson_bc(const int& i0,
             return;
         case 4:
             if (exOrder == 1) {
-                with_domain(FWD(p)...)(u = ((4 - h) / (4 + h)) * u1);
+                with_domain(FWD(p)...)(
+                    u = ((2 * alpha - h * beta) / (2 * alpha + h * beta)) * u1);
                 u.copy_to(u_);
             } else if (exOrder == 2) {
-                with_domain(FWD(p)...)(u = ((16 - 6 * h) / ((16 + 3 * h))) * u1 +
-                                           h / ((16 + 3 * h)) * u2);
+                with_domain(FWD(p)...)(
+                    u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From bb5e585b5913a58663ab8d9c1461089f7db9d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 20/27] fix: Robin diagonal adjustment divides by 3h+16b as the
 off-diagonal one does

---
 m4/celldiffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/celldiffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 m4/nodediffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 src/cuda/cd_stencil_1d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_3d_cuda.cpp    |  4 ++--
 9 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs1d.m4 b/m4/celldiffusionstencilcoeffs1d.m4
index 7e23f78..3974336 100755
--- a/m4/celldiffusionstencilcoeffs1d.m4
+++ b/m4/celldiffusionstencilcoeffs1d.m4
@@ -249,13 +249,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -309,13 +309,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index 9730fad..e52717d 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -259,7 +259,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -267,7 +268,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -360,7 +362,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -368,7 +370,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 2765e1e..665f125 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -300,7 +300,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -315,7 +315,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0+1,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0+1,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0+1,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -333,7 +333,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -348,7 +348,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1+1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1+1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1+1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -366,7 +366,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -381,7 +381,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2+1,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2+1,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2+1,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -484,7 +484,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -499,7 +499,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -517,7 +517,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -532,7 +532,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -550,7 +550,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -565,7 +565,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/m4/nodediffusionstencilcoeffs1d.m4 b/m4/nodediffusionstencilcoeffs1d.m4
index e51aee0..552e552 100755
--- a/m4/nodediffusionstencilcoeffs1d.m4
+++ b/m4/nodediffusionstencilcoeffs1d.m4
@@ -237,13 +237,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -295,13 +295,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 49038d4..8a3bcd1 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -248,7 +248,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -256,7 +257,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+     &                     /(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -347,7 +349,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -355,7 +357,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 6be1a6e..6df69b5 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -291,7 +291,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -306,7 +306,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -325,7 +325,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -340,7 +340,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -359,7 +359,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -374,7 +374,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -485,7 +485,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -500,7 +500,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -519,7 +519,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -534,7 +534,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -553,7 +553,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -568,7 +568,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/src/cuda/cd_stencil_1d_cuda.cpp b/src/cuda/cd_stencil_1d_cuda.cpp
index 3a3f66a..0ddca44 100644
--- a/src/cuda/cd_stencil_1d_cuda.cpp
+++ b/src/cuda/cd_stencil_1d_cuda.cpp
@@ -149,7 +149,7 @@ void cd_stencil_1d_cuda<T>::adj_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
         if (exOrder == 2) {
             auto b = b0.shift_x(side);
-            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     }
@@ -179,7 +179,7 @@ void cd_stencil_1d_cuda<T>::adj_poisson_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
 
         T f = beta / h;
-        with_domain(st.window(), pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index d353bcb..996442d 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -168,7 +168,7 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -230,7 +230,7 @@ void cd_stencil_2d_cuda<T>::adj_poisson_diag(const int& i0,
     if (btype == 4 && exOrder == 2 && dir == 0) {
         T f = beta / h;
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
-        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index 3cf701a..7a1e2bf 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -210,7 +210,7 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -291,7 +291,7 @@ void cd_stencil_3d_cuda<T>::adj_poisson_diag(const int& i0,
     const auto pkl = Kb{pk0 - 2 * side + 1, pk0 - 2 * side + 1};
 
     auto bt4 = [&](T f, auto&&... p) mutable {
-        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     };
     auto bt0 = [&](T f, auto&&... p) mutable {
-- 
2.43.0


From 18582467294816be29a8d6d033ed78e829e48bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 21/27] fix: md_bounds.hpp can be included twice, so owning
 arrays and spans can be used together

---
 src/cuda/md_bounds.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index 057a2c8..dd42641 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -11,6 +11,7 @@
 // copies to the public, perform publicly and display publicly, and to
 // permit others to do so.
 
+#pragma once
 
 struct bounds {
     int first;
-- 
2.43.0


From 7d59f271fd24e3fe8c5300b653b776b7cc201df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 22/27] fix: window(span) compiles, the window needs no step
 table

---
 src/cuda/window_iterator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cuda/window_iterator.hpp b/src/cuda/window_iterator.hpp
index c3e5be1..f8048aa 100644
--- a/src/cuda/window_iterator.hpp
+++ b/src/cuda/window_iterator.hpp
@@ -28,9 +28,8 @@ window_helper(std::index_sequence<I...>, Iter it, const int (&sz)[N + 1])
     int stride[] = {stride_dim<I, N + 1>(sz)...};
     int current[] = {(0 * I)...};
     int n[] = {sz[I]...};
-    int stm[] = {(0 * I + 1)...};
 
-    return {it, stride, current, n, stm};
+    return {it, stride, current, n};
 }
 
 } // namespace detail
-- 
2.43.0


From 1ae1947a0818ddeb300ecb2f3378ef87a2c3e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 23/27] fix: add_copyright writes C++ comments

---
 scripts/add_copyright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/add_copyright.py b/scripts/add_copyright.py
index c6e0f6f..3fd6b71 100755
--- a/scripts/add_copyright.py
+++ b/scripts/add_copyright.py
@@ -12,7 +12,7 @@ def copyright_header(root):
     with open(root / 'COPYRIGHT') as f:
         lines = f.readlines()
 
-    return ''.join('\\\\ ' + line for line in lines) + '\n\n'
+    return ''.join('// ' + line for line in lines) + '\n\n'
 
 
 def file_contains_copyright(file_handle):
-- 
2.43.0


From f3fd28ee048c47af7f25b0ff513217f05d874c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 24/27] fix: add_copyright keeps bytes, line endings and
 permissions of the files it stamps

---
 scripts/add_copyright.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/scripts/add_copyright.py b/scripts/add_copyright.py
index 3fd6b71..df77faa 100755
--- a/scripts/add_copyright.py
+++ b/scripts/add_copyright.py
@@ -1,8 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import tempfile
-import shutil
 from pathlib import Path
 
 
@@ -20,7 +18,7 @@ def file_contains_copyright(file_handle):
 
     found = False
     for _, line in zip(range(10), file_handle):
-        if line.find('Copyright') != -1:
+        if line.find(b'Copyright') != -1:
             found = True
 
     file_handle.seek(0)
@@ -30,19 +28,17 @@ def file_contains_copyright(file_handle):
 def add_copyright(header, in_path):
     """ Add copyright notice to file at path. """
 
-    with open(in_path) as f:
+    with open(in_path, 'rb') as f:
         if file_contains_copyright(f):
             print("{} already contains copyright notice".format(in_path))
             return
 
-        # create temporary file holding new text
-        out_desc, out_name = tempfile.mkstemp()
-        with open(out_desc, 'w') as out:
-            out.write(header)
-            for line in f:
-                out.write(line)
+        text = f.read()
 
-    shutil.copy(out_name, in_path)
+    # rewrite in place: bytes, permissions and line endings stay as they are
+    with open(in_path, 'wb') as out:
+        out.write(header.encode())
+        out.write(text)
 
 
 parser = argparse.ArgumentParser()
-- 
2.43.0


From 8f0583fb1bce520700264ee95fdead3f848eebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:17 +0000
Subject: [PATCH 25/27] fix: add_copyright skips directories whose name ends in
 pp

---
 scripts/add_copyright.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/add_copyright.py b/scripts/add_copyright.py
index df77faa..705ab21 100755
--- a/scripts/add_copyright.py
+++ b/scripts/add_copyright.py
@@ -53,4 +53,5 @@ src = root / 'src'
 header = copyright_header(root)
 
 for f in src.rglob('*pp'):
-    add_copyright(header, f)
+    if f.is_file():
+        add_copyright(header, f)
-- 
2.43.0


From f88309d31c5b8eedfb87585905890e504204d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 26/27] fix: an assignment over a domain with a reversed range
 does nothing

---
 src/cuda/md_device_span.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 65fbc5a..7d15f5f 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -291,7 +291,11 @@ constexpr auto with_domain(P&&... ps)
             std::apply(FWD(assign_proxys), tp);
         };
     else
-        return [=](auto&&... assign_proxys) { (assign_proxys(ps...), ...); };
+        return [=](auto&&... assign_proxys) {
+            // a range that ends before it begins leaves nothing to assign
+            if (((ps.ub() < ps.lb()) || ...)) return;
+            (assign_proxys(ps...), ...);
+        };
 }
 
 template <typename W,
@@ -301,6 +305,8 @@ constexpr auto with_domain(W&& w, P&&... ps)
 {
 
     return [=](auto&&... st_assign) mutable {
+        // a range that ends before it begins leaves nothing to assign
+        if (((ps.ub() < ps.lb()) || ...)) return;
         // this is fine if all the st_assigns have numeric T's
         auto sz = (ps.size() * ...);
         if constexpr ((is_rhs_number_v<decltype(st_assign)> && ...)) {
-- 
2.43.0


From 47515a78eee517a44b0f9c62a211b858485d3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 27/27] fix: distance of coarse lookups whose fine indices are
 further apart than an int

---
 src/cuda/coarse_to_fine_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/coarse_to_fine_iterator.hpp b/src/cuda/coarse_to_fine_iterator.hpp
index d9bc02e..d674460 100644
--- a/src/cuda/coarse_to_fine_iterator.hpp
+++ b/src/cuda/coarse_to_fine_iterator.hpp
@@ -85,7 +85,7 @@ private:
     distance_to(const coarse_to_fine_iterator<Other>& other) const
     {
         // assumes that first, n, and stride are identical between the two.
-        return (other.fi - fi) / fs;
+        return (diff_t(other.fi) - fi) / fs;
     }
 
     Iter first;
-- 
2.43.0

