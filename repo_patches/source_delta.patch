From 68cd918e4c869ec847f2668bd9c22d47a35bf14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 01/28] fix: mapped second and higher derivatives ended the
 process

---
 igakit/nurbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..e2953e1 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1621,6 +1621,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1690,6 +1692,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped and order > 1:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
-- 
2.43.0


From 298689ac286acfcca7d9f1f95c6b73d4a2454722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 02/28] fix: a term was missing in fourth derivatives of
 rational objects

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..89a0047 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -938,7 +938,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From f2fc1d7b36f3129b0ee1daaf65987140d3249553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 03/28] fix: compare knots exactly, as the span search does

Multiplicities were counted with an absolute tolerance while the span search
is exact: values just below a knot got a wrong multiplicity for their span,
and whole spans of small domains were overlooked.
---
 igakit/igalib.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 89a0047..c360abe 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -38,7 +38,7 @@ function FindMult(i,uu,p,U) result (mult)
   integer(kind=4) :: j
   mult = 0
   do j = -p, p+1
-     if (abs(uu - U(i+j))<epsilon(uu)) mult = mult + 1
+     if (uu == U(i+j)) mult = mult + 1
   end do
 end function FindMult
 
@@ -483,7 +483,7 @@ subroutine RefineKnotVector(d,n,p,U,Pw,r,X,Ubar,Qw)
      do l = 1, p
         idx = k - p + l
         alpha = Ubar(k+l) - X(j)
-        if (abs(alpha) < epsilon(alpha)) then
+        if (alpha == 0) then
            Qw(:,idx-1) = Qw(:,idx)
         else
            alpha = alpha / (Ubar(k+l) - U(i-p+l))
@@ -546,7 +546,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
   do while (b < m)
      i = b
      do while (b < m)
-        if (abs(U(b) - U(b+1))>epsilon(U)) exit
+        if (U(b) /= U(b+1)) exit
         b = b + 1
      end do
      mul = b - i + 1
@@ -1091,7 +1091,7 @@ subroutine SpanIndex(p,m,U,r,I)
   integer(kind=4) :: k, s
   s = 1
   do k = p, m-(p+1)
-     if (abs(U(k) - U(k+1))>epsilon(U)) then
+     if (U(k) /= U(k+1)) then
         I(s) = k; s = s + 1
         if (s > r) exit
      end if
@@ -2482,7 +2482,7 @@ subroutine BasisData(p,m,U,d,q,r,O,J,W,X,N)
 
   ir = 1
   do i = p, m-(p+1)
-     if (abs(U(i) - U(i+1))>epsilon(U)) then
+     if (U(i) /= U(i+1)) then
         O(ir) = i - p
         ir = ir + 1
      end if
-- 
2.43.0


From 86933080868e99412746b100a04aeb6694050908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 04/28] fix: inserting at and extracting from the right end of
 an unclamped axis

The knot copies beyond the end of the domain were not taken into account, and
evaluation at an end whose knot repeats into the domain used an empty span.
---
 igakit/igalib.f90 | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index c360abe..508798e 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -11,10 +11,16 @@ function FindSpan(n,p,uu,U) result (span)
   integer(kind=4) low, high
   if (uu >= U(n+1)) then
      span = n
+     do while (span > p .and. U(span) == U(n+1))
+        span = span - 1
+     end do
      return
   end if
   if (uu <= U(p)) then
      span = p
+     do while (span < n .and. U(span+1) == U(p))
+        span = span + 1
+     end do
      return
   end if
   low  = p
@@ -188,18 +194,22 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
   real   (kind=8) :: uu, alpha, Rw(d,0:p)
   if (x <= U(p)) then
      uu = U(p)
-     k = p
-     s = FindMult(p,uu,p,U)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
      if (s >= p) then
-        Cw(:) = Pw(:,0)
+        Cw(:) = Pw(:,k-p)
         return
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
-     s = FindMult(n,uu,p,U)
+     k = FindSpan(n,p,uu,U)
+     s = FindMult(k,uu,p,U)
+     do while (k < n+p+1)
+        if (U(k+1) > uu) exit
+        k = k + 1
+     end do
      if (s >= p) then
-        Cw(:) = Pw(:,n)
+        Cw(:) = Pw(:,k-s)
         return
      end if
   else
@@ -1125,6 +1135,10 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
+  do while (k < n+p+1) ! the last copy of the knot, also at the right end
+     if (U(k+1) > uu) exit
+     k = k + 1
+  end do
   call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
 end subroutine InsertKnot
 
-- 
2.43.0


From b32b7b102eaddb683a65eeaec908f77aa33f0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 05/28] fix: refine() sorted the array passed by the caller

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index e2953e1..6572ac7 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1054,7 +1054,7 @@ class NURBS(object):
 
         """
         def Arg(p, U, u):
-            u.sort(kind='heapsort')
+            u = np.sort(u, kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
             tmp = np.concatenate((u, U[1:-1]))
-- 
2.43.0


From 407a3ceeadaccc381a77bebc6e4139fb8f2f221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 06/28] fix: reversing an axis moved the ends of its domain by
 rounding errors

---
 igakit/nurbs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 6572ac7..e6e5f07 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -642,7 +642,10 @@ class NURBS(object):
             return C[tuple(index)]
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
-            return (U1+U0)-U[::-1]
+            V = (U1+U0)-U
+            V[U==U0] = U1
+            V[U==U1] = U0
+            return V[::-1]
         allaxes = range(self.dim)
         if not axes: axes = allaxes
         array = self.array
-- 
2.43.0


From 716f96a67975ff8d1e3bc4376e8368b9a30f82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 07/28] fix: remapping an axis missed the requested end points
 by rounding errors

---
 igakit/nurbs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index e6e5f07..a6076ce 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -711,12 +711,13 @@ class NURBS(object):
         if (a == c) and (b == d): return self
         #
         assert c < d
-        U = U.copy()
-        U -= a
-        U *= (d-c)/(b-a)
-        U += c
+        V = U - a
+        V *= (d-c)/(b-a)
+        V += c
+        V[U==a] = c
+        V[U==b] = d
         knots = list(self.knots)
-        knots[axis] = U
+        knots[axis] = V
         #
         self._knots = tuple(knots)
         return self
-- 
2.43.0


From 185d65e15326905fb1d336e707ba1cceab9111ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 08/28] fix: elevating the degree of an unclamped axis gave a
 different shape

DegreeElevate() requires a clamped knot vector, and wrote past the end of its
output otherwise.
---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6076ce..cae96d6 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1154,10 +1154,12 @@ class NURBS(object):
         array = self.array.view()
         knots = list(self.knots)
         #
+        Clamp = _bsp.Clamp
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
+        U, Pw = Clamp(p, U, Pw, True, True)
         V, Qw = DegreeElevate(p, U, Pw, t)
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From ece4d414000323e137149b2f90afc93b2fd46e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 09/28] fix: knot removal took its tolerance from a field or a
 coordinate instead of the weights

---
 igakit/nurbs.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index cae96d6..64edd63 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -871,11 +871,8 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
-        Pmax = []
-        for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
-        Pmax = max(Pmax)
+        wmin = self.weights.min()
+        Pmax = np.sqrt((self.points**2).sum(axis=-1)).max()
         TOL = deviation*wmin/(1.+Pmax)
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
-- 
2.43.0


From a98fae3fe050439d88bc19bcecfa3a5aa8213d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 10/28] fix: revolving about the negative z axis failed

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..8505307 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if not np.any(n): n = [1, 0, 0] # v parallel to z
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From af8af4da75f1a7dde51fb66bc1396d2ec0717f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 11/28] fix: join() left a gap if the second domain does not
 start at zero

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 8505307..147a623 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -638,7 +638,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, b-a+u)
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From a74e3770a4359c91472523cbf07de5def3b2c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 12/28] fix: grid() and refine() changed arrays passed by the
 caller

---
 igakit/cad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 147a623..e2f3a1c 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -235,7 +235,7 @@ def grid(shape, degree=2, continuity=None,
     wrap : bool or sequence of bool, optional
 
     """
-    shape = np.asarray(shape, dtype='i')
+    shape = np.array(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
         shape.shape = (1,)
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
@@ -693,7 +693,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From b57eaef59a79fc6ece1a604dc04bf76108552dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 13/28] fix: revolving about an axis close to the z axis lost
 half of the digits

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index e2f3a1c..48af722 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -460,7 +460,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
     if not np.any(n): n = [1, 0, 0] # v parallel to z
-    gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
+    gamma = np.arctan2(np.hypot(v[0], v[1]), v[2]) # angle(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
     # Map cartesian coordinates (x,y,z) to cylindrical coordinates
-- 
2.43.0


From 374b24cf7a8be15c7d211716d65ee8328e2a94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 14/28] fix: coons() refused curves meeting up to rounding if
 coordinates are large

---
 igakit/cad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 48af722..3aa9ff2 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -586,7 +586,8 @@ def coons(curves):
     Q[1,0] = C01(v0)
     Q[1,1] = C01(v1)
     #
-    assert np.allclose(P, Q, rtol=0, atol=1e-15)
+    scale = max(1.0, np.abs(P).max())
+    assert np.allclose(P, Q, rtol=0, atol=1e-12*scale)
     #
     R0 = ruled(C00, C01).transpose()
     R1 = ruled(C10, C11)
-- 
2.43.0


From 121e8f57a969b292698b341201cf495d86efbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 15/28] fix: fewer control points than the degree requires were
 accepted

---
 igakit/nurbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 64edd63..85ba0fd 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -237,6 +237,7 @@ class NURBS(object):
         for n, m in zip(N, M):
             degree = m - n - 1
             assert degree >= 1
+            assert n >= degree
         #
         self._array = np.ascontiguousarray(array)
         self._knots = tuple(knots)
-- 
2.43.0


From 1adb423f3eb0aae21dbaf159ac53f6e0fad35eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 16/28] fix: compat() left the outer knots of unclamped axes
 different

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 3aa9ff2..2f0a505 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -320,6 +320,7 @@ def compat(*nurbs, **kargs):
         for i, nrb in enumerate(nurbs):
             for j, axis in enumerate(axes):
                 a, b = Umin[j], Umax[j]
+                nrb.clamp(axis)
                 nrb.remap(axis, a, b)
     #
     def SameDegree(nurbs, axes):
-- 
2.43.0


From f8d9f6dc3faf18487e78c1fc9760f20becc2400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 17/28] fix: coons() gave other boundaries if the weights at
 the corners are not one

---
 igakit/cad.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 2f0a505..56fd8e9 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -571,21 +571,17 @@ def coons(curves):
     (C00, C01) = compat(C00, C01)
     (C10, C11) = compat(C10, C11)
     #
-    p, U = C10.degree[0], C10.knots[0]
-    u0, u1 = U[p], U[-p-1]
-    P = np.zeros((2,2,3), dtype='d')
-    P[0,0] = C10(u0)
-    P[1,0] = C10(u1)
-    P[0,1] = C11(u0)
-    P[1,1] = C11(u1)
+    P = np.zeros((2,2,4), dtype='d')
+    P[0,0] = C10.control[0]
+    P[1,0] = C10.control[-1]
+    P[0,1] = C11.control[0]
+    P[1,1] = C11.control[-1]
     #
-    q, V = C00.degree[0], C00.knots[0]
-    v0, v1 = V[q], V[-q-1]
-    Q = np.zeros((2,2,3), dtype='d')
-    Q[0,0] = C00(v0)
-    Q[0,1] = C00(v1)
-    Q[1,0] = C01(v0)
-    Q[1,1] = C01(v1)
+    Q = np.zeros((2,2,4), dtype='d')
+    Q[0,0] = C00.control[0]
+    Q[0,1] = C00.control[-1]
+    Q[1,0] = C01.control[0]
+    Q[1,1] = C01.control[-1]
     #
     scale = max(1.0, np.abs(P).max())
     assert np.allclose(P, Q, rtol=0, atol=1e-12*scale)
-- 
2.43.0


From 539c3dfaa0e0f3d9ceaabff6becc397d6bfa52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 18/28] fix: a matrix file truncated in its row sizes was
 accepted if it announces no entries

---
 igakit/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/io.py b/igakit/io.py
index 16337af..efe6506 100644
--- a/igakit/io.py
+++ b/igakit/io.py
@@ -248,6 +248,7 @@ class PetIGA(object):
             AI = np.empty(M+1, dtype=M.dtype)
             AI[0] = 0
             rownz = _read(fh, I, M)
+            assert len(rownz) == M
             np.cumsum(rownz, out=AI[1:])
             assert AI[-1] == nz
             AJ = _read(fh, I, nz)
-- 
2.43.0


From 2e3263cb0e243c945a736a26aaba77d677cb5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 19/28] fix: remap() could leave decreasing knots next to the
 ends of the domain

---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 85ba0fd..611edc9 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -715,6 +715,8 @@ class NURBS(object):
         V = U - a
         V *= (d-c)/(b-a)
         V += c
+        V = np.where(U<=a, np.minimum(V, c), np.maximum(V, c))
+        V = np.where(U>=b, np.maximum(V, d), np.minimum(V, d))
         V[U==a] = c
         V[U==b] = d
         knots = list(self.knots)
-- 
2.43.0


From 3bc3e38b2048c10f28ea98fc1db83495f17df491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 20/28] fix: reverse() could leave decreasing knots next to the
 ends of the domain

---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 611edc9..d77365d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -644,6 +644,8 @@ class NURBS(object):
         def KntRev(p, U):
             U0, U1 = U[p], U[-p-1]
             V = (U1+U0)-U
+            V = np.where(U<=U0, np.maximum(V, U1), np.minimum(V, U1))
+            V = np.where(U>=U1, np.minimum(V, U0), np.maximum(V, U0))
             V[U==U0] = U1
             V[U==U1] = U0
             return V[::-1]
-- 
2.43.0


From 080ae7edcc3df1b7d9c2eb08f11c1b56981e2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 21/28] fix: compat() kept knots apart which coincide up to
 rounding

---
 igakit/cad.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 56fd8e9..fe8ca10 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -322,6 +322,25 @@ def compat(*nurbs, **kargs):
                 a, b = Umin[j], Umax[j]
                 nrb.clamp(axis)
                 nrb.remap(axis, a, b)
+        # Relative size of rounding errors in the knots
+        size = np.abs(bounds).max(axis=(0,2))/(Umax-Umin)
+        size += (np.abs(bounds).max(axis=2)/np.ptp(bounds, axis=2)).max(axis=0)
+        return 8*np.finfo('d').eps*size*(Umax-Umin)
+    #
+    def SameBreaks(nurbs, axes, tol):
+        # Breaks differing by rounding errors are the same
+        for j, axis in enumerate(axes):
+            u = nurbs[0].breaks(axis)
+            for nrb in nurbs[1:]:
+                v = nrb.breaks(axis)
+                k = np.abs(v[:,None]-u).argmin(axis=1)
+                w = np.where(np.abs(v-u[k])<=tol[j], u[k], v)
+                if _np_unique(w).size == v.size:
+                    knots = list(nrb.knots)
+                    knots[axis] = w[np.searchsorted(v, knots[axis])]
+                    nrb._knots = tuple(knots)
+                    v = w
+                u = _np_unique(np.concatenate([u, v]))
     #
     def SameDegree(nurbs, axes):
         # Ensure same degree by degree elevation
@@ -383,7 +402,8 @@ def compat(*nurbs, **kargs):
         axes = [allaxes[i] for i in axes]
     if not axes: return nurbs
     #
-    SameBounds(nurbs, axes)
+    tol = SameBounds(nurbs, axes)
+    SameBreaks(nurbs, axes, tol)
     SameDegree(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
-- 
2.43.0


From f94a23a7af81ced1090b59bb8f182f5f043c28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 22/28] fix: join() changed both parts if the weights of the
 common faces differ by a factor

---
 igakit/cad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index fe8ca10..a8f6c42 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -668,6 +668,10 @@ def join(nrb1, nrb2, axis):
     I2 = [slice(None)] * (dim+1)
     I1[axis] = slice(0,-1)
     I2[axis] = slice(1,None)
+    # Scale the second to the weights of the first at the seam
+    w1 = nrb1.weights.take(-1, axis)
+    w2 = nrb2.weights.take(+0, axis)
+    A2 = A2*(w1.sum()/w2.sum())
     Al = A1[tuple(I1)]
     Ar = A2[tuple(I2)]
     I1[axis] = -1
-- 
2.43.0


From 97074bde713ccf7eb84d20b6c9a044dd81b979bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 23/28] fix: degree elevation was wrong at degree 10 and up
 after a break of lower multiplicity

---
 igakit/igalib.f90 | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 508798e..873a20e 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -522,7 +522,7 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
 
   real   (kind=8) :: bezalfs(0:p+t,0:p)
   real   (kind=8) :: bpts(d,0:p), ebpts(d,0:p+t), nextbpts(d,0:p-2)
-  real   (kind=8) :: alfs(0:p-2), ua, ub, alf, bet, gam, den
+  real   (kind=8) :: alfs(0:p-2), ua, ub, alf, gam, den
   if (t < 1) then
      Uh = U
      Qw = Pw
@@ -599,7 +599,6 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
         first = kind-2
         last = kind
         den = ub-ua
-        bet = (ub-Uh(kind-1))/den
         do tr = 1, oldr-1
            i = first
            j = last
@@ -610,12 +609,8 @@ subroutine DegreeElevate(d,n,p,U,Pw,t,nh,Uh,Qw)
                  Qw(:,i) = alf*Qw(:,i) + (1-alf)*Qw(:,i-1)
               end if
               if (j >= lbz) then
-                 if (j-tr <= kind-ph+oldr) then
-                    gam = (ub-Uh(j-tr))/den
-                    ebpts(:,kj) = gam*ebpts(:,kj) + (1-gam)*ebpts(:,kj+1)
-                 else
-                    ebpts(:,kj) = bet*ebpts(:,kj) + (1-bet)*ebpts(:,kj+1)
-                 end if
+                 gam = (ub-Uh(j-tr))/den
+                 ebpts(:,kj) = gam*ebpts(:,kj) + (1-gam)*ebpts(:,kj+1)
               end if
               i = i+1
               j = j-1
-- 
2.43.0


From f14be0ee44a689fdb73de13e90713c43daef8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:50 +0000
Subject: [PATCH 24/28] fix: degree elevation overflowed the binomial
 coefficients at degree 30 and up

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 873a20e..5ff889a 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -646,7 +646,8 @@ contains
   pure function Bin(n,k) result (C)
     implicit none
     integer(kind=4), intent(in) :: n, k
-    integer(kind=4) :: i, C
+    integer(kind=4) :: i
+    real   (kind=8) :: C
     C = 1
     do i = 0, min(k,n-k) - 1
        C = C * (n - i)
-- 
2.43.0


From 6833c5cbc53ef00311dd0b8243e871a922dbc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 25/28] fix: derivatives of order 9 and up overflowed for basis
 functions of degree 13 and up

---
 igakit/igalib.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 5ff889a..afd84f4 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -133,10 +133,10 @@ subroutine DersBasisFuns(i,uu,p,n,U,ders)
         j = s1; s1 = s2; s2 = j;
      end do
   end do
-  r = p
+  d = p
   do k = 1, n
-     ders(:,k) = ders(:,k) * r
-     r = r * (p-k)
+     ders(:,k) = ders(:,k) * d
+     d = d * (p-k)
   end do
 end subroutine DersBasisFuns
 
-- 
2.43.0


From ca139bae1ed5b4dd4c95ca8ad05dd8826bd0cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 26/28] fix: one empty span too many was counted if knots are
 repeated before the end of the domain

---
 igakit/igalib.pyf | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/igakit/igalib.pyf b/igakit/igalib.pyf
index 7bb5dae..ac229d2 100644
--- a/igakit/igalib.pyf
+++ b/igakit/igalib.pyf
@@ -5,10 +5,8 @@ usercode '''
 static int CountSpans(int n, int p, double *U)
 {
   int i, spans=0;
-  for (i=p; i<=n; i++) {
-    while (i<=n && U[i]==U[i+1]) i++;
-    spans++;
-  }
+  for (i=p; i<=n; i++)
+    if (U[i]!=U[i+1]) spans++;
   return spans;
 }
 '''
-- 
2.43.0


From a5f172ce4553c2c5acaaf9df05254969ae8980e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 27/28] fix: clamp(), unclamp() and elevate() were wrong if
 knots are repeated inside of the ends of the domain

---
 igakit/nurbs.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index d77365d..fc59bfa 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -12,6 +12,16 @@ except AttributeError:
     except AttributeError:
         _np_unique = np.unique1d
 
+def _trim(p, U, Pw, left=True, right=True):
+    # Discard functions without support in the domain, left
+    # there by knots repeated inside of the ends of the domain.
+    i, j = 0, len(Pw)
+    if left:
+        while i+p+1 < j and U[i+p+1] == U[p]: i += 1
+    if right:
+        while i+p+1 < j and U[j-1] == U[-p-1]: j -= 1
+    return U[i:j+p+1], Pw[i:j]
+
 
 __all__ = ['NURBS', 'transform']
 
@@ -934,6 +944,7 @@ class NURBS(object):
         #
         Clamp = _bsp.Clamp
         Pw = np.rollaxis(array, axis, 0).copy()
+        U, Pw = _trim(p, U, Pw, l, r)
         shape = Pw.shape
         Pw.shape = (shape[0], -1)
         V, Qw = Clamp(p, U, Pw, l, r)
@@ -1005,6 +1016,7 @@ class NURBS(object):
         #
         Unclamp = _bsp.Unclamp
         Pw = np.rollaxis(array, axis, 0).copy()
+        U, Pw = _trim(p, U, Pw)
         shape = Pw.shape
         Pw.shape = (shape[0], -1)
         V, Qw = Unclamp(p, U, Pw, C, l, r)
@@ -1159,6 +1171,7 @@ class NURBS(object):
         Clamp = _bsp.Clamp
         DegreeElevate = _bsp.DegreeElevate
         Pw = np.rollaxis(array, axis, 0)
+        U, Pw = _trim(p, U, Pw)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         U, Pw = Clamp(p, U, Pw, True, True)
-- 
2.43.0


From 3153ff88a99bac9fdd4922f9db88f9b26472126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:02 +0000
Subject: [PATCH 28/28] fix: elevate() wrote outside of its arrays if an
 interior knot is repeated more than degree times

---
 igakit/nurbs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index fc59bfa..9ffe99d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1167,6 +1167,8 @@ class NURBS(object):
         t = times
         array = self.array.view()
         knots = list(self.knots)
+        V = U[(U > U[p]) & (U < U[-p-1])]
+        assert np.all(V[p:] > V[:-p]) # multiplicities <= p
         #
         Clamp = _bsp.Clamp
         DegreeElevate = _bsp.DegreeElevate
-- 
2.43.0

