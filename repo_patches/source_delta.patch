From c21d6c77683e892bce7b540fafb06bd192d3f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 01/18] fix: forward_stencil_iterator jumps that reach the end
 or move back onto a block boundary

---
 src/cuda/forward_stencil_iterator.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..07986ef 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -124,15 +124,16 @@ private:
         //  causing our stencil to "rollover".
         distance_to_last -= dist;
 
+        // floor division since we may be moving backwards into an earlier block
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
-        int at_last = !(distance_to_last);
-
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
+        int backwards = base_dist % max_stride_distance < 0;
+        auto blocks = base_dist / max_stride_distance - backwards;
+        auto rem = base_dist % max_stride_distance + backwards * max_stride_distance;
+        // the "last" position is past the end of its block, not the start of the next
+        int at_last = !(distance_to_last) * !(rem);
+
+        auto iter_dist = dist + (blocks - at_last) * stencil_stride;
+        current_distance = rem + at_last * max_stride_distance;
         // if (distance_to_last == 0) {
         //     iter_dist -= (stencil_stride-1);
         //     current_distance = max_stride_distance;
-- 
2.43.0


From 8f165be4a19f6e234029fb5c6dd529c4ac0995e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 02/18] fix: window expressions with the array on the left of a
 sub-expression that has one

A proxy of index N reads its own array from slot N-1 of the tuple of
iterators, so the array has to be appended to the sub-expression's tuple
on either side of the operator.
---
 src/cuda/stencil_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..de9578c 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -136,7 +136,7 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0


From 03d053acc643ba59d23a04877cbd1a0eef47da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 03/18] fix: size of a strided range whose extent is not a
 multiple of the stride

The last selected index was not counted, and window assignments over such
a domain skipped it.
---
 src/cuda/md_bounds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..3b012d5 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,7 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    int size() const { return (last - first + stride - 1) / stride; }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
-- 
2.43.0


From 1931ca078962d04f1a0b75c80c3cc20bebc440cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 04/18] fix: offset products on strided domains

The displacements of the offset table were scaled by the strides of the
domain.
---
 src/cuda/md_device_span.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/md_device_span.hpp b/src/cuda/md_device_span.hpp
index 06937d0..42abad7 100644
--- a/src/cuda/md_device_span.hpp
+++ b/src/cuda/md_device_span.hpp
@@ -167,8 +167,9 @@ struct dot_helper : iter_math<dot_helper<U, V>> {
         thrust::device_ptr<int> o = v.o;
         int n = std::get<N>(u.dir_bounds()).size();
 
+        // the offsets count elements of the array, whatever the stride of the domain
         return thrust::make_transform_iterator(thrust::make_zip_iterator(u_it, v_it),
-                                               dot_impl<N>{v_it, o, n});
+                                               dot_impl<N>{v(bnds.unit_stride()...), o, n});
     }
 };
 
-- 
2.43.0


From 26d7416c20339382af1043f1415a6983ef50bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 05/18] fix: set_offset discarded earlier writes to the device
 copy

The row was set in a host copy that could be out of date, and the whole of
it copied over the device data.
---
 src/md_device_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/md_device_vector.hpp b/src/md_device_vector.hpp
index c5ba9d6..01e6413 100644
--- a/src/md_device_vector.hpp
+++ b/src/md_device_vector.hpp
@@ -123,10 +123,14 @@ public:
         static constexpr int sz = sizeof...(Args);
         assert(sz == b[N-1].size());
 
+        // keep what was written on the device
+        if (!sync) h = d;
+
         int idx[] = {args...};
         for (int i = 0; i < sz; i++) h[n * sz + i] = idx[i];
 
         d = h;
+        sync = true;
     }
 
 private:
-- 
2.43.0


From d69421f3b22b73943564b2f4c36e67ad892eb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 06/18] fix: axes swapped in two-dimensional stencil loops

---
 m4/applystencil2d.m4  | 4 ++--
 m4/celladjustrhs2d.m4 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From cb939c0d9411cbbb61faff107f0b1998ba909701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 07/18] fix: coloured sweeps left the box on rows with negative
 index

---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..98e7551 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+modulo(j+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From cb0a93f1e8c81e6f6c9c3ded66dc649d953019d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 08/18] fix: right-hand side of cellgs1d declared over the box
 of u

---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From b2a9969145a3f885afa5d5aa3d25f398a3a6e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 09/18] fix: block matrix read one offset past the stencil

---
 m4/cellblocksmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellblocksmooth3d.m4 b/m4/cellblocksmooth3d.m4
index 02e2cff..d13db88 100644
--- a/m4/cellblocksmooth3d.m4
+++ b/m4/cellblocksmooth3d.m4
@@ -25,7 +25,7 @@ c Create a dense matrix from stencil.
             do i=0,bSizeX-1
                idx = k*bSizeY*bSizeX+j*bSizeX+i
                A(idx,idx) = stencil(0,i,j,k)
-               do s=1,stencilSize
+               do s=1,stencilSize-1
                   ix = i+offset(0,s)
                   iy = j+offset(1,s)
                   iz = k+offset(2,s)
-- 
2.43.0


From b1fa363df68f89418755039079359b791838209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 10/18] fix: damping of the two-dimensional smoothers was a
 single-precision constant

---
 m4/cellblocksmooth2d.m4 | 4 ++--
 m4/cellsmooth2d.m4      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellblocksmooth2d.m4 b/m4/cellblocksmooth2d.m4
index 72a896b..8dde148 100755
--- a/m4/cellblocksmooth2d.m4
+++ b/m4/cellblocksmooth2d.m4
@@ -51,7 +51,7 @@ c
       integer i,j
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
@@ -87,7 +87,7 @@ c
       REAL det
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored last in the stencil
diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index 98e7551..3939387 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -58,7 +58,7 @@ c
       integer i,j,s, io, jo
       REAL w
 
-      w=0.8
+      w=0.8d0
 
 c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
-- 
2.43.0


From 4fd4a6f5a3be9d8076dfd6c1566e685793efdd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 11/18] fix: z flux of the node operator used the y
 coefficients

---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From 3e32d72079cbef15c4ed0ddede44b0c489a252ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 12/18] fix: divergence of the node operator took the y fluxes
 for z

---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From fe951254c791b4d10c4783c40a0b0c4ce214d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 13/18] fix: wrong indices in the node adjustments along y and
 z

---
 m4/nodediffusionstencilcoeffs3d.m4 | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 0be0e62..1b968eb 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -729,7 +729,7 @@ c
          else if (interporder .eq. 2) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-                  factor=dr1*beta*b1(edge,i,j)/(h**2)
+                  factor=dr1*beta*b2(edge,i,j)/(h**2)
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                enddo
             enddo
@@ -945,7 +945,7 @@ c
                   factor=beta*b1(ie1,k,i)
                   factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -984,7 +984,7 @@ c
                   factor=beta*b2(ie2,i,j)
                   factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1256,7 +1256,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(NN,i,ie1-1,k)=-9.0*factor
-                  stencil(SS,1,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
+                  stencil(SS,i,ie1-1,k)=stencil(SS,i,ie1-1,k)-factor
                 enddo
               enddo
             endif
@@ -1293,7 +1293,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(TT,i,j,ie2-1)=-9.0*factor
-                  stencil(BB,1,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
+                  stencil(BB,i,j,ie2-1)=stencil(BB,i,j,ie2-1)-factor
                 enddo
               enddo
             endif
@@ -1657,7 +1657,7 @@ c
             enddo
          endif
       elseif (direction.eq.2) then
-         ie2 = pfirst1-side+1
+         ie2 = pfirst2-side+1
          if(side .eq. 0) then
             do j = pfirst1, plast1
                do i = pfirst0, plast0
-- 
2.43.0


From 3d827894a0485adf43ae69f50cd2f3ebc8da17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 14/18] fix: Dirichlet correction of the node diagonal was
 applied outside the box on high sides

---
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 21 ++++++++++++---------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 10eb005..5cf98ab 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -280,26 +280,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 1b968eb..18d69a8 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -393,7 +393,8 @@ c
          endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
+          edge= pfirst0-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -402,13 +403,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(edge,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
+          edge= pfirst1-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -417,13 +419,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(edge,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
+          edge= pfirst2-side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -432,7 +435,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(edge,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
@@ -589,7 +592,7 @@ c
             endif
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
-          ie0 = pfirst0-side+1
+          ie0 = pfirst0-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -604,7 +607,7 @@ c
             enddo
           endif
         elseif (direction.eq.1) then
-          ie1  = pfirst1-side+1
+          ie1  = pfirst1-2*side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -619,7 +622,7 @@ c
             enddo
           endif
         elseif (direction.eq.2) then
-          ie2  = pfirst2-side+1
+          ie2  = pfirst2-2*side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-- 
2.43.0


From 45ba9676463686b46ea24afd935991406c36fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 15/18] fix: block smoother left the own block out of the
 residual

---
 m4/cellsmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth3d.m4 b/m4/cellsmooth3d.m4
index e7a866b..e96fbb7 100755
--- a/m4/cellsmooth3d.m4
+++ b/m4/cellsmooth3d.m4
@@ -321,7 +321,7 @@ c always stored first in the stencil
          do j = lo1, hi1
             do i = lo0, hi0
 	       r(:,i,j,k)=f(:,i,j,k)
-               do s=2,size
+               do s=1,size
                   io=offset(1,s)
                   jo=offset(2,s)
                   ko=offset(3,s)
-- 
2.43.0


From e9f6058f970a4d140d9863f3984945943a215a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 16/18] fix: diagonal of the order-2 Robin adjustment
 multiplied by 3h+16b instead of dividing

---
 m4/celldiffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/celldiffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 m4/nodediffusionstencilcoeffs1d.m4 |  8 ++++----
 m4/nodediffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/nodediffusionstencilcoeffs3d.m4 | 24 ++++++++++++------------
 src/cuda/cd_stencil_1d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_3d_cuda.cpp    |  4 ++--
 9 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs1d.m4 b/m4/celldiffusionstencilcoeffs1d.m4
index 7e23f78..3974336 100755
--- a/m4/celldiffusionstencilcoeffs1d.m4
+++ b/m4/celldiffusionstencilcoeffs1d.m4
@@ -249,13 +249,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -309,13 +309,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index dc41061..76c4719 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -259,7 +259,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+                    factor=factor/(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -267,7 +268,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+                    factor=factor/(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -360,7 +362,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -368,7 +370,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 288701e..4352ade 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -300,7 +300,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -315,7 +315,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(ie0+1,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(ie0+1,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(ie0+1,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -333,7 +333,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -348,7 +348,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(ie1+1,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(ie1+1,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(ie1+1,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -366,7 +366,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -381,7 +381,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(ie2+1,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(ie2+1,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(ie2+1,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -484,7 +484,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -499,7 +499,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -517,7 +517,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -532,7 +532,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -550,7 +550,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -565,7 +565,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/m4/nodediffusionstencilcoeffs1d.m4 b/m4/nodediffusionstencilcoeffs1d.m4
index e51aee0..552e552 100755
--- a/m4/nodediffusionstencilcoeffs1d.m4
+++ b/m4/nodediffusionstencilcoeffs1d.m4
@@ -237,13 +237,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
+               factor=beta*b0(edge)/(h*(3.0*h+16.0*b0(edge)))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
@@ -295,13 +295,13 @@ c
          if (side .eq. 0 ) then
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          else
             if(extrapOrder.eq.1) then
             else if (extrapOrder.eq.2) then
-               factor=beta/h*(3.0*h+16.0)
+               factor=beta/(h*(3.0*h+16.0))
                stencil(PP,ie0)=stencil(PP,ie0)-factor
             endif
          endif
diff --git a/m4/nodediffusionstencilcoeffs2d.m4 b/m4/nodediffusionstencilcoeffs2d.m4
index 5cf98ab..c6ce4f4 100755
--- a/m4/nodediffusionstencilcoeffs2d.m4
+++ b/m4/nodediffusionstencilcoeffs2d.m4
@@ -248,7 +248,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+                    factor=factor/(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -256,7 +257,8 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
+                    factor=beta*b0(edge,ic1)
+                    factor=factor/(h*(3.0*h+16.0*b0(edge,ic1)))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
@@ -349,7 +351,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                enddo
@@ -357,7 +359,7 @@ c
                do ic1 = pfirst1, plast1
                   if(extrapOrder.eq.1) then
                   else if (extrapOrder.eq.2) then
-                    factor=beta/h*(3.0*h+16.0)
+                    factor=beta/(h*(3.0*h+16.0))
                     stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)-factor
                   endif
                end do
diff --git a/m4/nodediffusionstencilcoeffs3d.m4 b/m4/nodediffusionstencilcoeffs3d.m4
index 18d69a8..bde412f 100755
--- a/m4/nodediffusionstencilcoeffs3d.m4
+++ b/m4/nodediffusionstencilcoeffs3d.m4
@@ -291,7 +291,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j, k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -306,7 +306,7 @@ c
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   factor=beta*b0(edge,j,k)
-                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
+                  factor=factor/(h*(3.0*h+16.0*b0(edge,j,k)))
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
                 enddo
               enddo
@@ -325,7 +325,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -340,7 +340,7 @@ c
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   factor=beta*b1(edge,k,i)
-                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
+                  factor=factor/(h*(3.0*h+16.0*b1(edge,k,i)))
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
                 enddo
               enddo
@@ -359,7 +359,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -374,7 +374,7 @@ c
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   factor=beta*b2(edge,i,j)
-                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
+                  factor=factor/(h*(3.0*h+16.0*b2(edge,i,j)))
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
                 enddo
               enddo
@@ -488,7 +488,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -503,7 +503,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)-factor
@@ -522,7 +522,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -537,7 +537,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)-factor
@@ -556,7 +556,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
@@ -571,7 +571,7 @@ c
               enddo
             endif
             if (extrapOrder.eq.2) then
-              factor=beta/h*(3.0*h+16.0)
+              factor=beta/(h*(3.0*h+16.0))
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)-factor
diff --git a/src/cuda/cd_stencil_1d_cuda.cpp b/src/cuda/cd_stencil_1d_cuda.cpp
index 3a3f66a..0ddca44 100644
--- a/src/cuda/cd_stencil_1d_cuda.cpp
+++ b/src/cuda/cd_stencil_1d_cuda.cpp
@@ -149,7 +149,7 @@ void cd_stencil_1d_cuda<T>::adj_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
         if (exOrder == 2) {
             auto b = b0.shift_x(side);
-            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+            with_domain(st.window(), pi)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     }
@@ -179,7 +179,7 @@ void cd_stencil_1d_cuda<T>::adj_poisson_diag(const int& i0,
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
 
         T f = beta / h;
-        with_domain(st.window(), pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 7362735..100b757 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -168,7 +168,7 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -230,7 +230,7 @@ void cd_stencil_2d_cuda<T>::adj_poisson_diag(const int& i0,
     if (btype == 4 && exOrder == 2 && dir == 0) {
         T f = beta / h;
         const auto pi = Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1};
-        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), pj, pi)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     }
 }
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index da2e43a..b7562d6 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -210,7 +210,7 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     auto bt4 = [&](T f, auto&& b, auto&&... p) mutable {
         if (exOrder == 2) {
             with_domain(st.window(),
-                        FWD(p)...)(st(0) = st(0) - (f * b) * (3 * h + 16 * b));
+                        FWD(p)...)(st(0) = st(0) - (f * b) / (3 * h + 16 * b));
             st.copy_to(st_);
         }
     };
@@ -291,7 +291,7 @@ void cd_stencil_3d_cuda<T>::adj_poisson_diag(const int& i0,
     const auto pkl = Kb{pk0 - 2 * side + 1, pk0 - 2 * side + 1};
 
     auto bt4 = [&](T f, auto&&... p) mutable {
-        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f * (3 * h + 16)));
+        with_domain(st.window(), FWD(p)...)(st(0) = st(0) - (f / (3 * h + 16)));
         st.copy_to(st_);
     };
     auto bt0 = [&](T f, auto&&... p) mutable {
-- 
2.43.0


From 4ccac51a9363bd2f6be42d0cf308805cf92100f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:22 +0000
Subject: [PATCH 17/18] fix: second coefficient of the order-2 Robin ghost
 lacked beta

---
 m4/cellsetcorrectionbc1d.m4        |  4 ++--
 m4/cellsetcorrectionbc2d.m4        | 12 ++++++------
 m4/cellsetcorrectionbc3d.m4        | 24 ++++++++++++------------
 src/cuda/cd_correct_bc_1d_cuda.cpp |  2 +-
 src/cuda/cd_correct_bc_2d_cuda.cpp |  4 ++--
 src/cuda/cd_correct_bc_3d_cuda.cpp |  4 ++--
 6 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/m4/cellsetcorrectionbc1d.m4 b/m4/cellsetcorrectionbc1d.m4
index a8274f4..40663d5 100755
--- a/m4/cellsetcorrectionbc1d.m4
+++ b/m4/cellsetcorrectionbc1d.m4
@@ -95,7 +95,7 @@ c  Will do linear extrapolation
               b=d0(ilo)
               coeff(1)=8.0*alpha*b-6.0*beta*h
 	      coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
             endif
          end if
@@ -120,7 +120,7 @@ c  Will do linear extrapolation
             else if ( extrapOrder .eq. 2) then
               b=d0(ihi+1)
               coeff(1)=(8.0*alpha*b-6.0*beta*h)/(8.0*alpha*b+3.0*beta*h)
-              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
+              coeff(2)=beta*h/(8.0*alpha*b+3.0*beta*h)
               u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
             endif
          end if
diff --git a/m4/cellsetcorrectionbc2d.m4 b/m4/cellsetcorrectionbc2d.m4
index 69dad4f..370ea62 100755
--- a/m4/cellsetcorrectionbc2d.m4
+++ b/m4/cellsetcorrectionbc2d.m4
@@ -124,7 +124,7 @@ c  Will do linear extrapolation
                      b=d0(ilo,j)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -160,7 +160,7 @@ c  Will do linear extrapolation
                      b=d0(ihi+1,j)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
@@ -196,7 +196,7 @@ c  Will do linear extrapolation
                      b=d1(jlo, i)
                      coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jlo-1)=coeff(1)*u(i, jlo)+coeff(2)*u(i, jlo+1)
                   endif
                end do
@@ -232,7 +232,7 @@ c  Will do linear extrapolation
                      b=d1(jhi+1,i)
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(i, jhi+1)=coeff(1)*u(i, jhi)+coeff(2)*u(i, jhi-1)
                   endif
                end do
@@ -363,7 +363,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ilo-1,j)=coeff(1)*u(ilo,j)+coeff(2)*u(ilo+1,j)
                   endif
                end do
@@ -396,7 +396,7 @@ c  Will do linear extrapolation
                      b=1.0
                      coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                      coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                     coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                     coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                      u(ihi+1,j)=coeff(1)*u(ihi,j)+coeff(2)*u(ihi-1,j)
                   endif
                end do
diff --git a/m4/cellsetcorrectionbc3d.m4 b/m4/cellsetcorrectionbc3d.m4
index 4d17887..0cc5a7a 100755
--- a/m4/cellsetcorrectionbc3d.m4
+++ b/m4/cellsetcorrectionbc3d.m4
@@ -153,7 +153,7 @@ c  Will do linear extrapolation
                  b=d0(ilo,j,k)
                  coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                  coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                 coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                 coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                  u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
                 end do
                end do
@@ -203,7 +203,7 @@ c  Will do linear extrapolation
                   b=d0(ihi+1,j,k)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
                  end do
                enddo
@@ -252,7 +252,7 @@ c  Will do linear extrapolation
                   b=d1(jlo,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
                  end do
                enddo
@@ -301,7 +301,7 @@ c  Will do linear extrapolation
                   b=d1(jhi+1,k,i)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
                  end do
                enddo
@@ -350,7 +350,7 @@ c  Will do linear extrapolation
                   b=d2(klo,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
                  end do
                enddo
@@ -399,7 +399,7 @@ c  Will do linear extrapolation
                   b=d2(khi+1,i,j)
                   coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                   coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-                  coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+                  coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
                  end do
                enddo
@@ -621,7 +621,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = 8.0d0*alpha*b-6.0d0*beta*h
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ilo-1,j,k)=coeff(1)*u(ilo,j,k)+coeff(2)*u(ilo+1,j,k)
@@ -671,7 +671,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do j = jlo, jhi
                   u(ihi+1,j,k)=coeff(1)*u(ihi,j,k)+coeff(2)*u(ihi-1,j,k)
@@ -720,7 +720,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jlo-1,k)=coeff(1)*u(i,jlo,k)+coeff(2)*u(i,jlo+1,k)
@@ -769,7 +769,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do k = klo, khi
                  do i = ilo, ihi
                   u(i,jhi+1,k)=coeff(1)*u(i,jhi,k)+coeff(2)*u(i,jhi-1,k)
@@ -818,7 +818,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,klo-1)=coeff(1)*u(i,j,klo)+coeff(2)*u(i,j,klo+1)
@@ -867,7 +867,7 @@ c  Will do linear extrapolation
                b=1.0d0
                coeff(1) = (8.0d0*alpha*b-6.0d0*beta*h)
                coeff(1) = coeff(1)/(8.0d0*alpha*b+3.0d0*beta*h)
-               coeff(2) = h/(8.0d0*alpha*b+3.0d0*beta*h)
+               coeff(2) = beta*h/(8.0d0*alpha*b+3.0d0*beta*h)
                do j = jlo, jhi
                  do i = ilo, ihi
                   u(i,j,khi+1)=coeff(1)*u(i,j,khi)+coeff(2)*u(i,j,khi-1)
diff --git a/src/cuda/cd_correct_bc_1d_cuda.cpp b/src/cuda/cd_correct_bc_1d_cuda.cpp
index c7f1616..8397c2c 100644
--- a/src/cuda/cd_correct_bc_1d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_1d_cuda.cpp
@@ -67,7 +67,7 @@ void cd_correct_bc_1d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_2d_cuda.cpp b/src/cuda/cd_correct_bc_2d_cuda.cpp
index 3f0df2c..495f98d 100644
--- a/src/cuda/cd_correct_bc_2d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_2d_cuda.cpp
@@ -78,7 +78,7 @@ void cd_correct_bc_2d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -179,7 +179,7 @@ void cd_correct_bc_2d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
diff --git a/src/cuda/cd_correct_bc_3d_cuda.cpp b/src/cuda/cd_correct_bc_3d_cuda.cpp
index 2a29b53..e724fff 100644
--- a/src/cuda/cd_correct_bc_3d_cuda.cpp
+++ b/src/cuda/cd_correct_bc_3d_cuda.cpp
@@ -82,7 +82,7 @@ void cd_correct_bc_3d_cuda<T>::set_bc(const int& i0,
                 with_domain(FWD(p)...)(u = ((8 * alpha * d - 6 * beta * h) /
                                             ((8 * alpha * d + 3 * beta * h))) *
                                                u1 +
-                                           h / ((8 * alpha * d + 3 * beta * h)) * u2);
+                                           beta * h / ((8 * alpha * d + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
@@ -238,7 +238,7 @@ void cd_correct_bc_3d_cuda<T>::set_poisson_bc(const int& i0,
             } else if (exOrder == 2) {
                 with_domain(FWD(p)...)(
                     u = ((8 * alpha - 6 * beta * h) / ((8 * alpha + 3 * beta * h))) * u1 +
-                        h / ((8 * alpha + 3 * beta * h)) * u2);
+                        beta * h / ((8 * alpha + 3 * beta * h)) * u2);
                 u.copy_to(u_);
             }
             return;
-- 
2.43.0


From 4b3fa9ff9a23a829819e9993e7dded7cc10ff9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 18/18] fix: Dirichlet correction of the cell diagonal used the
 low face, and in two dimensions the ghost line, on high sides

---
 m4/celldiffusionstencilcoeffs2d.m4 | 10 ++++++----
 m4/celldiffusionstencilcoeffs3d.m4 | 11 +++++++----
 src/cuda/cd_stencil_2d_cuda.cpp    |  4 ++--
 src/cuda/cd_stencil_3d_cuda.cpp    |  6 +++---
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/m4/celldiffusionstencilcoeffs2d.m4 b/m4/celldiffusionstencilcoeffs2d.m4
index 76c4719..a75a9f3 100755
--- a/m4/celldiffusionstencilcoeffs2d.m4
+++ b/m4/celldiffusionstencilcoeffs2d.m4
@@ -293,26 +293,28 @@ c
             endif
          elseif (bdrytype.eq.DIRICHLET) then
             if (direction.eq.0) then
-               ie0 = pfirst0-side+1
+               ie0 = pfirst0-2*side+1
+               edge= pfirst0-side+1
                h=dx(0)
                if(extrapOrder.eq.1) then
                   do ic1 = pfirst1, plast1
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic1 = pfirst1, plast1
-                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
+                     factor = beta*b0(edge,ic1)/(3.0d0*(h**2))
                      stencil(PP,ie0,ic1)=stencil(PP,ie0,ic1)+factor
                   enddo
                endif
             elseif (direction.eq.1) then
-               ie1  = pfirst1-side+1
+               ie1  = pfirst1-2*side+1
+               edge= pfirst1-side+1
                h=dx(1)
                if(extrapOrder.eq.1) then
                   do ic0 = pfirst0, plast0
                   enddo
                else if (extrapOrder.eq.2) then
                   do ic0 = pfirst0, plast0
-                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
+                     factor = beta*b1(edge,ic0)/(3.0d0*(h**2))
                      stencil(PP,ic0,ie1)=stencil(PP,ic0,ie1)+factor
                   enddo
                endif
diff --git a/m4/celldiffusionstencilcoeffs3d.m4 b/m4/celldiffusionstencilcoeffs3d.m4
index 4352ade..f58be73 100755
--- a/m4/celldiffusionstencilcoeffs3d.m4
+++ b/m4/celldiffusionstencilcoeffs3d.m4
@@ -278,7 +278,7 @@ c
       integer sgcw
       REAL stencil(0:6,CELL3d(ifirst,ilast,sgcw))
       integer i,j,k
-      integer ie0,ie1,ie2
+      integer ie0,ie1,ie2, edge
 
       REAL factor
       REAL b, h
@@ -392,6 +392,7 @@ c
       elseif (bdrytype.eq.DIRICHLET) then
         if (direction.eq.0) then
           ie0 = pfirst0-2*side+1
+          edge= pfirst0-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
@@ -400,13 +401,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do j = pfirst1, plast1
-                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
+                factor = beta*b0(edge,j,k)/(3.0d0*(h**2))
                 stencil(PP,ie0,j,k)=stencil(PP,ie0,j,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.1) then
           ie1  = pfirst1-2*side+1
+          edge= pfirst1-side+1
           if(extrapOrder.eq.1) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
@@ -415,13 +417,14 @@ c
           else if (extrapOrder.eq.2) then
             do k = pfirst2, plast2
               do i = pfirst0, plast0
-                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
+                factor = beta*b1(edge,k,i)/(3.0d0*(h**2))
                 stencil(PP,i,ie1,k)=stencil(PP,i,ie1,k)+factor
               enddo
             enddo
           endif
         elseif (direction.eq.2) then
           ie2  = pfirst2-2*side+1
+          edge= pfirst2-side+1
           if(extrapOrder.eq.1) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
@@ -430,7 +433,7 @@ c
           else if (extrapOrder.eq.2) then
             do j = pfirst1, plast1
               do i = pfirst0, plast0
-                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
+                factor = beta*b2(edge,i,j)/(3.0d0*(h**2))
                 stencil(PP,i,j,ie2)=stencil(PP,i,j,ie2)+factor
               enddo
             enddo
diff --git a/src/cuda/cd_stencil_2d_cuda.cpp b/src/cuda/cd_stencil_2d_cuda.cpp
index 100b757..996442d 100644
--- a/src/cuda/cd_stencil_2d_cuda.cpp
+++ b/src/cuda/cd_stencil_2d_cuda.cpp
@@ -191,10 +191,10 @@ void cd_stencil_2d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pj, Ib{pi0 - side + 1, pi0 - side + 1});
+            bt0(f, b0.shift_x(side), pj, Ib{pi0 - 2 * side + 1, pi0 - 2 * side + 1});
             return;
         case 1:
-            bt0(f, b1, Jb{pj0 - side + 1, pj0 - side + 1}, pi);
+            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);
             return;
         } // switch (dir)
         break;
diff --git a/src/cuda/cd_stencil_3d_cuda.cpp b/src/cuda/cd_stencil_3d_cuda.cpp
index b7562d6..7a1e2bf 100644
--- a/src/cuda/cd_stencil_3d_cuda.cpp
+++ b/src/cuda/cd_stencil_3d_cuda.cpp
@@ -239,13 +239,13 @@ void cd_stencil_3d_cuda<T>::adj_diag(const int& i0,
     case 0:
         switch (T f = beta / (3 * h * h); dir) {
         case 0:
-            bt0(f, b0, pk, pj, pil);
+            bt0(f, b0.shift_x(side), pk, pj, pil);
             break;
         case 1:
-            bt0(f, b1, pk, pjl, pi);
+            bt0(f, b1.shift_y(side), pk, pjl, pi);
             break;
         case 2:
-            bt0(f, b2, pkl, pj, pi);
+            bt0(f, b2.shift_z(side), pkl, pj, pi);
             break;
         } // switch (dir)
         break;
-- 
2.43.0

