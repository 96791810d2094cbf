From 5816c178d830cf44c85cf42e43a6e063a57c3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 01/75] fix: Gauss eliminates with the outer product of the
 multipliers and the pivot row

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..0987776 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j].reshape((n-j-1, 1)) * A[j, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From 89d4efb629d5e5af94e74e387ace160a6cadc6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 02/75] fix: PPS returns the Hansen-Bliek-Rohn estimate when no
 descent step is needed

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..adf56be 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 13bebee37fdf2e2a2748fcdfdea8638618fcf309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 03/75] fix: PPS marks endpoint choices only where the
 derivative estimate has a strict sign

---
 intvalpy/linear/PPS.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index adf56be..1b3cb78 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -202,15 +202,18 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
             if index_upper_zero.any():
-                L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
+                L[0].Q[index_upper_zero] = L[0].Q[index_upper_zero].a
             if index_lower_zero.any():
-                L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+                L[0].Q[index_lower_zero] = L[0].Q[index_lower_zero].b
+            # only a derivative of a strict sign tells which endpoint the solution is attained at
+            L[0].W[dQ > 0], L[0].W[dQ < 0] = 1, -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
             if index_upper_zero.any():
-                L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
+                L[0].r[index_upper_zero] = L[0].r[index_upper_zero].a
             if index_lower_zero.any():
-                L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+                L[0].r[index_lower_zero] = L[0].r[index_lower_zero].b
+            L[0].s[L[0].Y[nu] > 0], L[0].s[L[0].Y[nu] < 0] = -1, 1
 
 
             #############################################################################################
-- 
2.43.0


From 70eb733bf8e49e1d38ac528cfb313d1d1b402963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 04/75] fix: PSS treats division by the zero interval as an
 empty or full section instead of dividing by zero

---
 intvalpy/linear/PSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..d22d8d0 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -84,6 +84,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            # 0 * x = a, where a does not contain zero, has no solutions
+            return Interval(np.nan, np.nan)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0


From 1095d6fce2f38f354f70f504fcf92ffa750993f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 05/75] fix: PSS returns the attained estimate when every bar
 has been pruned

---
 intvalpy/linear/PSS.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index d22d8d0..fd003dc 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -228,6 +228,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         L = [(Q, q)]
         Ar = WorkListA @ Q
+        emptyQ = True
 
         item = 0
         nit = 0
@@ -294,11 +295,19 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                 else:
                     eta2 = infinity
 
+            if min(q1, q2) < 10**15:
+                emptyQ = False
+
             eta = eta1 if eta1 <= eta2 else eta2
             if omega > eta:
                 omega = eta
                 L = [l for l in L if l[1] <= omega]
 
+            if not L:
+                assert not emptyQ, 'The united solution set does not intersect the initial bar.'
+                # no bar contains points of the solution set that lie below omega
+                return omega
+
             item = 0
             while True:
                 try:
-- 
2.43.0


From 8696056b6a2f73b49f3f9d4276b14d823c85d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 06/75] fix: Interval(number) builds the degenerate interval
 its docstring promises

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..c67afdd 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -461,11 +461,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From 4b5bb27f649a3294e6322137fcb89c48bf400383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 07/75] fix: reversed() of an interval array reads the
 attribute that exists

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index c67afdd..bea3362 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From fd2b5245f774017c6a7e581fe340e0aced522ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 08/75] fix: interval characteristics of arrays are no longer
 truncated to the type of the first element

---
 intvalpy/kernel/real_intervals.py | 29 +++++++++++++++++++----------
 intvalpy/kernel/utils.py          | 16 ++++++++--------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index bea3362..67a50a9 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -9,6 +9,15 @@ import itertools
 from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
 
 
+def collect(func, data):
+    """
+    Array of the values func takes on the elements of data. Unlike np.vectorize,
+    the type of the result is determined by all the values and not only by the first one.
+    """
+    data = np.asarray(data, dtype=object)
+    return np.array([func(el) for el in data.ravel()]).reshape(data.shape)
+
+
 class ArrayInterval:
 
     def __init__(self, intervals):
@@ -26,19 +35,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return collect(lambda el: el.a, self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return collect(lambda el: el.b, self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return collect(lambda el: el.a, self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return collect(lambda el: el.b, self._data)
 
     @property
     def data(self):
@@ -61,23 +70,23 @@ class ArrayInterval:
 
     @property
     def rad(self):
-        return np.vectorize(lambda el: el.rad)(self._data)
+        return collect(lambda el: el.rad, self._data)
 
     @property
     def mid(self):
-        return np.vectorize(lambda el: el.mid)(self._data)
+        return collect(lambda el: el.mid, self._data)
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return collect(lambda el: el.wid, self._data)
 
     @property
     def mig(self):
-        return np.vectorize(lambda el: el.mig)(self._data)
+        return collect(lambda el: el.mig, self._data)
 
     @property
     def mag(self):
-        return np.vectorize(lambda el: el.mag)(self._data)
+        return collect(lambda el: el.mag, self._data)
 
     @property
     def dual(self):
@@ -97,7 +106,7 @@ class ArrayInterval:
 
     @property
     def khi(self):
-        return np.vectorize(lambda el: el.khi)(self._data)
+        return collect(lambda el: el.khi, self._data)
 
     @property
     def vertex(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..5bf5363 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES
+from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES, collect
 from .preprocessing import asinterval
 
 
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return collect(_wid, x)
     else:
         return _wid(x)
     
@@ -111,7 +111,7 @@ def mid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mid)(x)
+        return collect(_mid, x)
     else:
         return _mid(x)
     
@@ -126,7 +126,7 @@ def rad(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_rad)(x)
+        return collect(_rad, x)
     else:
         return _rad(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return collect(_inf, x)
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return collect(_sup, x)
     else:
         return _sup(x)
     
@@ -171,7 +171,7 @@ def mag(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mag)(x)
+        return collect(_mag, x)
     else:
         return _mag(x)
 
@@ -186,7 +186,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return collect(_khi, x)
     else:
         return _khi(x)
 
-- 
2.43.0


From 637dc60b28f37116a1509f9da67090e9e092da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 09/75] fix: intersection converts operands that are not
 intervals, as documented

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From 4de1893e41fb6796a97235734c934d2266822824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 10/75] fix: Neumaier uses one radius for all equations and the
 residual of the given centre

---
 intvalpy/linear/Neumaier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..b7d8ec1 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from ..kernel.real_intervals import Interval
+from ..kernel.preprocessing import asinterval
 
 
 def Neumaier(A, b, y, w = None):
@@ -39,5 +40,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
-    return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
+    return asinterval(y + estimation_box * r * Interval(-1, 1))
\ No newline at end of file
-- 
2.43.0


From 3b295f7d683def62697beb0accf2029cd177ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 11/75] fix: HBR demands that the whole vector certifies an
 H-matrix and adds the rank-one correction

---
 intvalpy/linear/HBR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..be63d09 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,14 +39,14 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
     A = A @ B - np.eye(n)
     w = np.max(-A / np.outer(u, np.ones(n)), axis=0)
     dlow = -(v*w - np.diag(B))
-    B = B + v @ w
+    B = B + np.outer(v, w)
     u = B @ b.mag
     d = np.diag(B)
     alpha = dAc + (-1)/d
-- 
2.43.0


From c6954954e2d9c2805c6ba0d5cca81cc9f22ce7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 12/75] fix: lineqs and lineqs3D report an empty set when a
 zero row cannot be satisfied

---
 intvalpy/linear/boundary_intervals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..0a6794c 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,6 +182,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return np.array([])
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -409,6 +411,9 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
+
     A, b = non_repeat(A, b)
 
     n, m = A.shape
-- 
2.43.0


From 42ff78da27f4f3e23939bff44d0b0ef1dca47aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 13/75] fix: IntLinIncR2 and IntLinIncR3 do not depend on
 drawing windows left by earlier calls

---
 intvalpy/linear/boundary_intervals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 0a6794c..4d57f2c 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -324,11 +324,12 @@ def IntLinIncR2(
                 raise Exception(msg)
 
             vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
+    global __center_rm
+    __center_rm = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -648,11 +649,12 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
+    global __center_rm
+    __center_rm = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From 9dcbf3aeda83d2c92eaed66e1ac4eb31f7b69201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 14/75] fix: lineqs chooses the window of an unbounded set
 around points of the set and survives an empty window

---
 intvalpy/linear/boundary_intervals.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 4d57f2c..29dccc2 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -57,9 +57,12 @@ def ParticularPoints(S, A, b):
 
     if len(V[binf]) != 0:
         nV = 1
-        for k in S[:, 4]:
-            k = int(k)
-            PP.append((A[k]*b[k])/np.dot(A[k], A[k]))
+        for el in S:
+            ends = [end for end in (el[:2], el[2:4]) if np.isfinite(end).all()]
+            if not ends:
+                k = int(el[4])
+                ends = [(A[k]*b[k])/np.dot(A[k], A[k])]
+            PP.extend(ends)
     else:
         nV = 0
         PP = V
@@ -197,6 +200,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            if rm <= 1e-14:
+                rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
@@ -207,6 +212,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From 6ce4ec0a26cc80212b9a31bef3d60855e14fc9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 15/75] fix: lineqs3D centres the window of an unbounded set at
 the set and handles a single plane

---
 intvalpy/linear/boundary_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 29dccc2..6fce9db 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -440,7 +440,7 @@ def lineqs3D(
             continue
 
         if len(bt) == 0:
-            PP.append(xi)
+            PP.append([xi])
             cfinite = False
             continue
 
@@ -480,7 +480,7 @@ def lineqs3D(
             xmin, ymin, zmin = np.min(x), np.min(y), np.min(z)
             xmax, ymax, zmax = np.max(x), np.max(y), np.max(z)
 
-            center = np.array([0, 0, 0]) + (x + y + z).mean()
+            center = np.array([xmin + xmax, ymin + ymax, zmin + zmax]) / 2
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
             if rm <= 1e-14:
-- 
2.43.0


From 633465d561b0e94b5f84443a511e6e9e581f9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 16/75] fix: non_repeat drops only inequalities that coincide,
 not those whose coefficients minus right-hand side coincide

---
 intvalpy/kernel/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ab4d7bf..d52a0f7 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,7 +26,7 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
+    a1 = np.column_stack((a, b))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
-- 
2.43.0


From 1ea249cc44bd3cf313a35e53dc1855b21ecc20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 17/75] fix: ChebNorm takes the farther end of every row,
 exactly and for integer matrices too

---
 intvalpy/linear/ChebNorm.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..6222815 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -1,9 +1,5 @@
 import numpy as np
 
-import cvxopt
-cvxopt.solvers.options['show_progress'] = False
-cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
-
 from ..kernel.abstract import BaseRecFun
 
 
@@ -26,20 +22,17 @@ class ChebNorm:
 
     @staticmethod
     def __calc_lp_on_box(c_, x_min, x_max):
-        c = cvxopt.matrix(c_)
-        G = cvxopt.matrix(np.vstack([-np.eye(len(x_min)), np.eye(len(x_min))]))
-        h = cvxopt.matrix(np.hstack([-x_min, x_max]).astype(np.double))
-        sol = cvxopt.solvers.lp(c, G, h, verbose=True)
-        return np.array(sol['x']).T
+        # a linear function attains its minimum over a box at the vertex given by the signs of its coefficients
+        return np.where(np.asarray(c_) >= 0, x_min, x_max)
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-        A_opt = np.zeros_like(infA)
+        A_opt = np.zeros(infA.shape, dtype=np.float64)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
-- 
2.43.0


From d2b9f0af0be86c075d2d3eedb68169fadae8e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 18/75] fix: the ChebNorm subgradient carries the weight of the
 active equation

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 6222815..d4a1b5b 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -47,7 +47,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From c6500fa6338c6285fb15574b79a8e03472324286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 19/75] fix: WILS.fit and ISPAE.fit smooth a copy of the
 caller's weights

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..28b83be 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -348,6 +348,8 @@ class ISPAE(object):
         # Initialize weights
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0c9ec4e 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -108,6 +108,8 @@ class WILS(object):
         
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From b7ae31637ab149557494658939683c385801832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 20/75] fix: WILS.fit works out the penalty factor of a
 constraint that has none, as the functionals do

---
 intvalpy/models/WILS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 0c9ec4e..7d8652b 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,5 +1,5 @@
 import numpy as np
-from ..kernel.utils import inf, sup, mid, rad
+from ..kernel.utils import inf, sup, mid, rad, mag
 from ..kernel.abstract import BaseRecFun
 from ..kernel.ralgb5 import ralgb5
 
@@ -116,6 +116,9 @@ class WILS(object):
             weight[k] = self.beta * (weight[k]*(1 - self.alpha) + self.alpha*weight[k-1])
 
 
+        if (constraint is not None) and (constraint.mu is None):
+            constraint.find_mu(np.max(mag(X_train)))
+
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
             if objective == 'Tol':
-- 
2.43.0


From 477a799b7cac4c20281cb40c34bcf95f489c4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 21/75] fix: the ISPAE intercept is not identically zero in the
 Laguerre basis

---
 intvalpy/models/ISPAE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 28b83be..a958bb9 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -40,6 +40,8 @@ class ISPAE(object):
             'legendre': np.polynomial.legendre.Legendre.basis,
         }
         self.basis = self.__bases[basis]
+        # the first Laguerre polynomial vanishes at one
+        self.bias_value = 0 if basis == 'laguerre' else 1
 
     
     def _wrap_norm(self, residual, norm):
@@ -304,7 +306,7 @@ class ISPAE(object):
         n, m = X_train.shape
         self.bias = bias
         if self.bias:
-            X_train.insert(loc=0, column='bias', value=[1]*n)
+            X_train.insert(loc=0, column='bias', value=[self.bias_value]*n)
         self.columns = X_train.columns
 
         # Validate and set polynomial order
@@ -392,5 +394,5 @@ class ISPAE(object):
         X_test = pd.DataFrame(X_test)
         n, m = X_test.shape
         if self.bias:
-            X_test.insert(loc=0, column='bias', value=[1]*n)
+            X_test.insert(loc=0, column='bias', value=[self.bias_value]*n)
         return self._expand_dataframe(X_test) @ self.estimator['xr']
\ No newline at end of file
-- 
2.43.0


From 9e159f6d9444f83605578af042f28922c2246ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 22/75] fix: Kaucher products take the larger of the partial
 products everywhere and round them outwards

---
 intvalpy/kernel/interval_arithmetics.pyx | 71 ++++--------------------
 1 file changed, 10 insertions(+), 61 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..80e3780 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -413,8 +413,6 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             with RoundingContext(FE_DOWNWARD):
@@ -424,21 +422,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return KaucherArithmetic(self.a, self.b) * other
         
         else:
             return other * self
@@ -557,18 +541,19 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
+            selfInfMinus = min(self.a, 0.0)
+            selfSupMinus = min(self.b, 0.0)
             
             otherInfPlus = max(other.a, 0.0)
             otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
+            otherInfMinus = min(other.a, 0.0)
+            otherSupMinus = min(other.b, 0.0)
             
+            # the negative parts keep their sign, so that every product is rounded in the required direction
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -576,8 +561,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
@@ -587,23 +570,7 @@ cdef class KaucherArithmetic(BaseTools):
                 inf = 1.0/other.b
             with RoundingContext(FE_UPWARD):
                 sup = 1.0/other.a
-            other = ClassicalArithmetic(inf, sup)
-            
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return self * ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
             if 0.0 in other:
@@ -661,26 +628,8 @@ cdef class KaucherArithmetic(BaseTools):
             return np.vectorize(lambda o: o - self)(other)
     
     def __rmul__(self, other):
-        cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
-        
         if isinstance(other, Number):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
+            return self * KaucherArithmetic(other, other)
         else:
             return np.vectorize(lambda o: o * self)(other)
     
-- 
2.43.0


From 3686a7f64ec50a5c445939bac9453d929865a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 23/75] fix: interval / number divides the endpoints with
 directed rounding instead of multiplying by a rounded reciprocal

---
 intvalpy/kernel/interval_arithmetics.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 80e3780..ba9d2d0 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -447,6 +447,12 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self / ClassicalArithmetic(other, other)
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o, otypes=[object])(other)
+
         else:
             return 1.0/other * self
     
@@ -581,6 +587,12 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self / ClassicalArithmetic(other, other)
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o, otypes=[object])(other)
+
         else:
             return 1/other * self
     
-- 
2.43.0


From fcba7f21188e0beb9827548b93d2527201960d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 24/75] fix: division by an improper interval whose projection
 contains zero is an error too

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ba9d2d0..b3bf87f 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -439,7 +439,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -579,7 +579,7 @@ cdef class KaucherArithmetic(BaseTools):
             return self * ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -647,7 +647,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From cecc647d86a87cd8937336f913194b584112d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 25/75] fix: numpy functions called with an interval as the
 left operand use the right operand; number / interval checks for zero there
 too

---
 intvalpy/kernel/interval_arithmetics.pyx | 24 ++++++++++++++++++------
 intvalpy/kernel/real_intervals.py        | 17 +++++++++++++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b3bf87f..f69ad46 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -352,7 +352,20 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        cdef double_t inf, sup
+        if args[2] is self and len(args) > 3:
+            # the interval is the left operand
+            if args[0].__name__ in ['add']:
+                return self + args[3]
+
+            elif args[0].__name__ in ['subtract']:
+                return self - args[3]
+
+            elif args[0].__name__ in ['multiply']:
+                return self * args[3]
+
+            elif args[0].__name__ in ['true_divide', 'divide']:
+                return self / args[3]
+
         if args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
@@ -363,11 +376,10 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            if isinstance(args[2], Number):
+                return self.__rtruediv__(args[2])
+            else:
+                return np.vectorize(lambda o: o / self, otypes=[object])(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 67a50a9..99e02a7 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -330,6 +330,23 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if args[2] is self and len(args) > 3:
+            # the interval array is the left operand
+            if args[0].__name__ in ['add']:
+                return self + args[3]
+
+            elif args[0].__name__ in ['subtract']:
+                return self - args[3]
+
+            elif args[0].__name__ in ['multiply']:
+                return self * args[3]
+
+            elif args[0].__name__ in ['true_divide', 'divide']:
+                return self / args[3]
+
+            elif args[0].__name__ in ['matmul']:
+                return self @ args[3]
+
         if args[0].__name__ in ['add']:
             return ArrayInterval(self._data + args[2])
 
-- 
2.43.0


From b43f05091f00dd1b9f557ded7a9db43d87773ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 26/75] fix: intervals have the to_float method that interval
 arrays call (multidimensional Krawczyk and HansenSengupta)

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index f69ad46..8d33531 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -112,6 +112,10 @@ cdef class BaseTools:
         """
         return self.b
     
+    def to_float(self):
+        """The same interval with floating-point endpoints."""
+        return type(self)(float(self.a), float(self.b))
+    
     def copy(self, deep=True):
         if deep:
             return type(self)(self.a, self.b)
-- 
2.43.0


From 324eb345fe6ebd62d3af4bc503697d6dce5a5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:19 +0000
Subject: [PATCH 27/75] fix: exp keeps a finite lower endpoint when only the
 upper one overflows, and outward rounding does not pull infinity back

---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8d33531..ff17909 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, -INFINITY)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INFINITY)    
 #######################################################################################
 
 
@@ -263,10 +263,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From dcab2a6f703525fe9df296db55cb07f5e88efa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:19 +0000
Subject: [PATCH 28/75] fix: sums and products of integer endpoints beyond 2^53
 are converted to double with outward rounding

---
 intvalpy/kernel/interval_arithmetics.pyx | 54 +++++++++++++++---------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ff17909..a858370 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -56,6 +56,20 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, INFINITY)    
+
+
+# Integer endpoints give exact integer results, whose conversion to double ignores the rounding mode.
+cdef double lower(object x):
+    cdef double result
+    try:
+        result = x
+    except OverflowError:
+        return DBL_MAX if x > 0 else -INFINITY
+    return round_down(result) if result > x else result
+
+
+cdef double upper(object x):
+    return -lower(-x)
 #######################################################################################
 
 
@@ -412,9 +426,9 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a + other.a
+                inf = lower(self.a + other.a)
             with RoundingContext(FE_UPWARD):
-                sup = self.b + other.b
+                sup = upper(self.b + other.b)
             return type(other)(inf, sup)
         else:
             return other + self
@@ -423,9 +437,9 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a - other.b
+                inf = lower(self.a - other.b)
             with RoundingContext(FE_UPWARD):
-                sup = self.b - other.a
+                sup = upper(self.b - other.a)
             return type(other)(inf, sup)
         else:
             return -other + self
@@ -435,9 +449,9 @@ cdef class ClassicalArithmetic(BaseTools):
         
         if isinstance(other, ClassicalArithmetic):
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b)
+                inf = lower(min(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b))
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b)
+                sup = upper(max(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b))
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
@@ -494,9 +508,9 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a + other
+                inf = lower(self.a + other)
             with RoundingContext(FE_UPWARD):
-                sup = self.b + other
+                sup = upper(self.b + other)
             return ClassicalArithmetic(inf, sup)
         else:
             # Для массивов
@@ -506,9 +520,9 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = other - self.b
+                inf = lower(other - self.b)
             with RoundingContext(FE_UPWARD):
-                sup = other - self.a
+                sup = upper(other - self.a)
             return ClassicalArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o - self)(other)
@@ -517,9 +531,9 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = min(other * self.a, other * self.b)
+                inf = lower(min(other * self.a, other * self.b))
             with RoundingContext(FE_UPWARD):
-                sup = max(other * self.a, other * self.b)
+                sup = upper(max(other * self.a, other * self.b))
             return ClassicalArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
@@ -540,9 +554,9 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a + other.a
+                inf = lower(self.a + other.a)
             with RoundingContext(FE_UPWARD):
-                sup = self.b + other.b
+                sup = upper(self.b + other.b)
             return KaucherArithmetic(inf, sup)
         else:
             return other + self
@@ -551,9 +565,9 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a - other.b
+                inf = lower(self.a - other.b)
             with RoundingContext(FE_UPWARD):
-                sup = self.b - other.a
+                sup = upper(self.b - other.a)
             return KaucherArithmetic(inf, sup)
         else:
             return -other + self
@@ -640,9 +654,9 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = self.a + other
+                inf = lower(self.a + other)
             with RoundingContext(FE_UPWARD):
-                sup = self.b + other
+                sup = upper(self.b + other)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o + self)(other)
@@ -651,9 +665,9 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if isinstance(other, Number):
             with RoundingContext(FE_DOWNWARD):
-                inf = other - self.b
+                inf = lower(other - self.b)
             with RoundingContext(FE_UPWARD):
-                sup = other - self.a
+                sup = upper(other - self.a)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o - self)(other)
-- 
2.43.0


From 642bcc091e59c8b79460ed9cf07c5bea12d1bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:19 +0000
Subject: [PATCH 29/75] fix: natural powers obey the rounding direction, also
 for proper intervals in Kaucher arithmetic, and the zeroth power is one

---
 intvalpy/kernel/interval_arithmetics.pyx | 50 ++++++++++++++++--------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a858370..6460aa2 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,22 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INFINITY)    
 
 
+cdef object power(object x, object n, int mode):
+    """x**n rounded in the given direction (the pow function of libm does not obey the rounding mode)."""
+    if x < 0 and n % 2 == 1:
+        return -power(-x, n, FE_UPWARD if mode == FE_DOWNWARD else FE_DOWNWARD)
+
+    result, x, n = 1, abs(x), int(n)
+    with RoundingContext(mode):
+        while n > 0:
+            if n % 2 == 1:
+                result = result * x
+            n = n // 2
+            if n > 0:
+                x = x * x
+    return result
+
+
 # Integer endpoints give exact integer results, whose conversion to double ignores the rounding mode.
 cdef double lower(object x):
     cdef double result
@@ -491,11 +507,9 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
-            if (other % 2 == 0) and (0 in self):
+            inf = lower(min(power(self.a, other, FE_DOWNWARD), power(self.b, other, FE_DOWNWARD)))
+            sup = upper(max(power(self.a, other, FE_UPWARD), power(self.b, other, FE_UPWARD)))
+            if (other > 0) and (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
                 return ClassicalArithmetic(inf, sup)
@@ -632,19 +646,21 @@ cdef class KaucherArithmetic(BaseTools):
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
-            with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, max(inf, sup))
-            elif (other % 2 == 0) and (0 in self.pro):
-                return KaucherArithmetic(max(inf, sup), 0.0)
+            left, right = self.a, self.b
+            if other % 2 == 0:
+                # an even power depends on the absolute value only
+                mig, mag = self.pro.mig, self.pro.mag
+                if left <= right:
+                    left, right = mig, mag
+                elif left >= 0:
+                    left, right = mag, mig
+
+            inf = lower(power(left, other, FE_DOWNWARD))
+            sup = upper(power(right, other, FE_UPWARD))
+            if inf > sup:
+                return KaucherArithmetic(inf, sup)
             else:
-                if inf > sup:
-                    return KaucherArithmetic(inf, sup)
-                else:
-                    return ClassicalArithmetic(inf, sup)
+                return ClassicalArithmetic(inf, sup)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
-- 
2.43.0


From d970389292b52ad615bcde5ae015c5fe80e714ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:19 +0000
Subject: [PATCH 30/75] fix: sin and cos do not overlook an extremum at large
 arguments or next to an endpoint

---
 intvalpy/kernel/interval_arithmetics.pyx | 27 +++++++++++++++++-------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6460aa2..a37e703 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -86,6 +86,17 @@ cdef double lower(object x):
 
 cdef double upper(object x):
     return -lower(-x)
+
+
+cdef bint reaches(double a, double b, double shift, bint properQ):
+    """
+    Whether [a, b] contains shift + 2*PI*k for some integer k. When this cannot be decided in
+    floating-point arithmetic, the answer is the one that makes the result be rounded outwards.
+    """
+    cdef double error = (fabs(a) + fabs(b) + 4.0) * 1e-15
+    if not properQ:
+        error = -error
+    return ceil((a - shift - error) / (2*PI)) <= floor((b - shift + error) / (2*PI))
 #######################################################################################
 
 
@@ -329,26 +340,26 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if reaches(x.a, x.b, -PI/2, True):
                     inf = -1
                 else:
                     inf = round_down(min(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if reaches(x.a, x.b, PI/2, True):
                     sup = 1
                 else:
                     sup = round_up(max(sin_inf, sin_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if reaches(x.a, x.b, PI/2, False):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if reaches(x.a, x.b, -PI/2, False):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -362,26 +373,26 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if reaches(x.a, x.b, PI, True):
                     inf = -1
                 else:
                     inf = round_down(min(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if reaches(x.a, x.b, 0.0, True):
                     sup = 1
                 else:
                     sup = round_up(max(cos_inf, cos_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if reaches(x.a, x.b, 0.0, False):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if reaches(x.a, x.b, PI, False):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From d92572787d11bbb275e7b4e19dd61e493f32ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 31/75] fix: a LinearConstraint without finite limits restricts
 nothing instead of failing

---
 intvalpy/kernel/abstract.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..8f27ead 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -227,21 +227,23 @@ class LinearConstraint:
 
             n = len(self.C)
             if n == 0:
+                # none of the limits is finite
                 self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
+                self.b.append(np.inf)
+                n = 1
+
+            w = np.random.uniform(1, 1, n) # TODO
+            # TODO
+            # переписать более оптимальным способом
+            W = np.zeros( (n, C.shape[1]), dtype=np.float64)
+            for k in range(W.shape[1]):
+                W[:, k] = w
 
             self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = C[:1], np.array([np.inf])
 
         self.mu = mu
 
-- 
2.43.0


From cc4535f565e1d381961de04520251b6b2b4c2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 32/75] fix: find_mu of two-sided constraints gives a finite
 penalty factor

---
 intvalpy/kernel/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 8f27ead..27ee55e 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -265,7 +265,9 @@ class LinearConstraint:
             for x in itertools.product([0, 1], repeat=n):
                 dot[k] = c @ x
                 k += 1
-            denominator.append(min(abs(dot[1:])))
+            # opposite rows (lower and upper limits of the same expression) cannot be violated together
+            dot = abs(dot[1:])
+            denominator.append(min(dot[dot > 1e-12 * max(abs(c))]))
 
         self.mu = numerator / min(denominator)
         return self.mu
\ No newline at end of file
-- 
2.43.0


From 1fe23b1f6402c35b41287e98672c04f1786cafb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 33/75] fix: the penalty factor of linear constraints outweighs
 the weighted equations and is not carried over to the next system

---
 intvalpy/kernel/abstract.py | 7 +++++--
 intvalpy/models/WILS.py     | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 27ee55e..3ff8ced 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,4 +1,5 @@
 import numpy as np
+import copy
 import itertools
 
 from .ralgb5 import ralgb5
@@ -51,8 +52,10 @@ class BaseRecFun(object):
             calcfg = lambda x: recfunc.calcfg(x, infA, supA, Am, Ar, bm, br, weight)
         else:
             if linear_constraint.mu is None:
+                # a copy, since the factor found for this system is not valid for other systems
                 mag_value = mag(A)
-                linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
+                linear_constraint = copy.copy(linear_constraint)
+                linear_constraint.mu = linear_constraint.find_mu(2 * np.max(weight) * np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
 
@@ -269,5 +272,5 @@ class LinearConstraint:
             dot = abs(dot[1:])
             denominator.append(min(dot[dot > 1e-12 * max(abs(c))]))
 
-        self.mu = numerator / min(denominator)
+        self.mu = numerator / min(denominator, default=1.0)
         return self.mu
\ No newline at end of file
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 7d8652b..bb0cae9 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from ..kernel.utils import inf, sup, mid, rad, mag
 from ..kernel.abstract import BaseRecFun
@@ -117,7 +118,9 @@ class WILS(object):
 
 
         if (constraint is not None) and (constraint.mu is None):
-            constraint.find_mu(np.max(mag(X_train)))
+            # a copy, since the factor found for these data is not valid for other data
+            constraint = copy.copy(constraint)
+            constraint.find_mu(2 * np.sum(weight) * np.max(mag(X_train)))
 
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
-- 
2.43.0


From 59d65bc9f705b77c277cc22a24f8994ea1b2d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 34/75] fix: the Subdiff subgradient of a product of two
 improper intervals around zero has the sign of the endpoint

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From 2c053ea2bb490509dcbe63070148e690903a46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 35/75] fix: del removes the items selected by a slice, a list
 or an array

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 99e02a7..84cafa5 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -238,12 +238,12 @@ class ArrayInterval:
                 self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))._data
 
     def __delitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer, slice, list, np.ndarray)):
             self._data = np.delete(self._data, key, axis=0)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
             self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-        elif isinstance(key, (slice, tuple, list, np.ndarray)):
+        elif isinstance(key, tuple):
             self._data = np.delete(self._data, key[-1], axis=len(key)-1)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
-- 
2.43.0


From 140df2230f0bff02138c51149fbbc5678f2b5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 36/75] fix: log is rounded outwards also where libm does not
 obey the rounding mode

---
 intvalpy/kernel/interval_arithmetics.pyx | 27 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a37e703..d4dea31 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -9,7 +9,7 @@ cimport cython
 
 import math
 cimport cython
-from libc.math cimport nextafter, nexttoward
+from libc.math cimport nextafter, nexttoward, logl, fabsl
 from libc.float cimport DBL_MAX, DBL_MIN
 from cython cimport fused_type
 
@@ -88,6 +88,19 @@ cdef double upper(object x):
     return -lower(-x)
 
 
+# The log function of libm does not always obey the rounding mode, hence the extended precision.
+cdef double log_lower(double x):
+    cdef long double value = logl(x)
+    cdef double result = <double>value
+    return round_down(result) if result > value - fabsl(value) * 2.2e-19 else result
+
+
+cdef double log_upper(double x):
+    cdef long double value = logl(x)
+    cdef double result = <double>value
+    return round_up(result) if result < value + fabsl(value) * 2.2e-19 else result
+
+
 cdef bint reaches(double a, double b, double shift, bint properQ):
     """
     Whether [a, b] contains shift + 2*PI*k for some integer k. When this cannot be decided in
@@ -318,16 +331,12 @@ cdef class BaseTools:
         _max, _min = max(pro.a, 0.0), pro.b
         if _max <= _min:
             if self.a <= self.b:
-                with RoundingContext(FE_DOWNWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)
-                with RoundingContext(FE_UPWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
+                inf = NEGINF if _max == 0.0 else log_lower(_max)
+                sup = NEGINF if _min == 0.0 else log_upper(_min)
                 return type(self)(inf, sup)
             else:
-                with RoundingContext(FE_DOWNWARD):
-                    sup = NEGINF if _min == 0.0 else math.log(_min)
-                with RoundingContext(FE_UPWARD):
-                    inf = NEGINF if _max == 0.0 else math.log(_max)                    
+                sup = NEGINF if _min == 0.0 else log_lower(_min)
+                inf = NEGINF if _max == 0.0 else log_upper(_max)
                 return type(self)(sup, inf)
         else:
             return type(self)(NAN, NAN)
-- 
2.43.0


From ef7bb5be1c79a9a9b272995a4bdce284d74e23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 37/75] fix: quotients of integer endpoints are rounded
 outwards

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index d4dea31..ad7ab8e 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -501,10 +501,12 @@ cdef class ClassicalArithmetic(BaseTools):
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
+            # the quotient of two integers would be rounded regardless of the rounding mode
+            left, right = 1.0 * self.a, 1.0 * self.b
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                inf = min(left / other.a, left / other.b, right / other.a, right / other.b)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                sup = max(left / other.a, left / other.b, right / other.a, right / other.b)
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-- 
2.43.0


From 7c32e80155bd937f4c5ffbdb8c5da83498ceedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 38/75] fix: results that are numpy integers are converted to
 double with outward rounding too

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ad7ab8e..baa5d62 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -77,6 +77,8 @@ cdef object power(object x, object n, int mode):
 # Integer endpoints give exact integer results, whose conversion to double ignores the rounding mode.
 cdef double lower(object x):
     cdef double result
+    if isinstance(x, np.integer):
+        x = int(x)
     try:
         result = x
     except OverflowError:
-- 
2.43.0


From eb57c31b9079d0f56405933ccb4c52aef555bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 39/75] fix: the width of a number is zero, like its radius

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 5bf5363..a8e4873 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From 04d0e09e1c94436cf6e6d153c21d638c20ce6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:14 +0000
Subject: [PATCH 40/75] fix: PSS reflects the caller's initial bar together
 with the right-hand side

---
 intvalpy/linear/PSS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index fd003dc..0c19e13 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -135,7 +135,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            # the solution set of A x = -b is the reflection of the one of A x = b
+            return endint * x0
 
         if n > m:
             try:
-- 
2.43.0


From 622084a72340e1fc602eff2e7dc89dea5752da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 41/75] fix: PSS limits the steps of the simplex method, which
 may cycle on thin bars

---
 intvalpy/linear/PSS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 0c19e13..e38bbab 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -161,7 +161,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
         args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
 
-        result = cvxopt.solvers.lp(*args, solver='glpk')
+        # on thin bars the simplex method may cycle, therefore the number of its steps is limited
+        for method in ['GLP_PRIMAL', 'GLP_DUALP']:
+            glpk = {'msg_lev': 'GLP_MSG_OFF', 'meth': method, 'it_lim': 100*sum(A_ub.shape)}
+            result = cvxopt.solvers.lp(*args, solver='glpk', options={'show_progress': False, 'glpk': glpk})
+            if result['status'] != 'unknown':
+                break
         if 'optimal' not in result['status']:
             raise Exception("LP optimum not found: %s" % result['status'])
         return np.array(result['x']).reshape(c.shape[0])
-- 
2.43.0


From 56cb4b6021fcca54c09c458f9bde763f7cb74de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 42/75] fix: PSS handles an initial bar with a zero end

---
 intvalpy/linear/PSS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index e38bbab..b976031 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -172,7 +172,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         return np.array(result['x']).reshape(c.shape[0])
 
     def ExactOmega(midA, radA, b, Q):
-        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, np.sign(V[_nu].a))
+        # a bar that ends at zero lies within one orthant as well
+        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, 1 if V[_nu].a >= 0 else -1)
         midAS = midA @ S
 
         p[:m] = np.insert(-Q.a, _nu, 1e15)
@@ -196,7 +197,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         except Exception:
             pass
 
-        S[_nu, _nu] = np.sign(V[_nu].b)
+        S[_nu, _nu] = 1 if V[_nu].b > 0 else -1
         midAS = midA @ S
 
         c[_nu] = S[_nu, _nu]
-- 
2.43.0


From 04addbc1044889c5ce22c431ce69f4111a4ae03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 43/75] fix: lineqs3D accepts a single inequality

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 6fce9db..feb0e28 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -102,7 +102,7 @@ def ChangeVariable(A, b, k):
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
 
-    index = np.array([l for l in range(len(A)) if l != k])
+    index = np.array([l for l in range(len(A)) if l != k], dtype=int)
     A, b = A[index], b[index]
 
     At = np.array([A @ y1, A @ y2]).T
-- 
2.43.0


From e11f0433a20ff67be7d587329b6dff4f826a27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 44/75] fix: boundary intervals of rows that are parallel up to
 rounding errors

---
 intvalpy/linear/boundary_intervals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index feb0e28..96791a1 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -24,6 +24,11 @@ def BoundaryIntervals(A, b):
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
 
+            # rows that are parallel up to rounding errors do not intersect
+            norm = np.linalg.norm(A[k])
+            if abs(c) <= 1e-14 * norm * np.linalg.norm(p):
+                c = 0
+
             if np.sign(c) == -1:
                 tmp = (b[k] - Akx) / c
                 q[1] = q[1] if q[1] <= tmp else tmp
@@ -31,7 +36,7 @@ def BoundaryIntervals(A, b):
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
+                if b[k] - Akx > 1e-14 * (abs(b[k]) + norm * np.linalg.norm(dotx)):
                     if np.dot(A[k], A[i]) > 0:
                         si = False
                         break
-- 
2.43.0


From 609951066fcf7678d484ea6b4db706a4ea1a620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 45/75] fix: drawing window of lineqs and lineqs3D when all
 particular points coincide up to rounding errors

---
 intvalpy/linear/boundary_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 96791a1..867b0ff 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -205,7 +205,7 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
-            if rm <= 1e-14:
+            if rm <= 1e-8 * (1 + np.max(np.abs(center))):
                 rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
@@ -488,7 +488,7 @@ def lineqs3D(
             center = np.array([xmin + xmax, ymin + ymax, zmin + zmax]) / 2
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
-            if rm <= 1e-14:
+            if rm <= 1e-8 * (1 + np.max(np.abs(center))):
                 rm = rm + 1
             __center_rm.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
-- 
2.43.0


From 01125f46961f9f002f50a18ff4b4cddf45f4501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 46/75] fix: ralgb5 does not go on at NaN points when its space
 transformation degenerates

---
 intvalpy/kernel/ralgb5.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index bf3d8b1..1b877d4 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -117,6 +117,9 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Compute the direction of movement in the transformed space
         g1 = B.T @ g0
+        if np.linalg.norm(g1) == 0:
+            # the transformation has degenerated: restart it
+            B, g1 = np.eye(m), g0
         dx = B @ (g1 / np.linalg.norm(g1))
         normdx = np.linalg.norm(dx)
 
@@ -167,8 +170,10 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Update the transformation matrix B and the subgradient
         dg = B.T @ (g1 - g0)
-        xi = dg / np.linalg.norm(dg)
-        B = B + w * np.outer((B @ xi), xi)
+        normdg = np.linalg.norm(dg)
+        if normdg > 0:
+            xi = dg / normdg
+            B = B + w * np.outer((B @ xi), xi)
         g0 = g1
 
         # Update the function value history for the stopping criterion
-- 
2.43.0


From 0a2a4b5bf60ebd9720a76c93c9fcadbabe2bde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 47/75] fix: natural powers with exponents of every numpy
 integer type

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index baa5d62..8eb833e 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -530,7 +530,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return 1.0/other * self
     
     def __pow__(self, other):
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             inf = lower(min(power(self.a, other, FE_DOWNWARD), power(self.b, other, FE_DOWNWARD)))
             sup = upper(max(power(self.a, other, FE_UPWARD), power(self.b, other, FE_UPWARD)))
             if (other > 0) and (other % 2 == 0) and (0 in self):
@@ -669,7 +669,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             left, right = self.a, self.b
             if other % 2 == 0:
                 # an even power depends on the absolute value only
-- 
2.43.0


From 31fa672ecf66db6716148ca21bf2b5a93ff23309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 48/75] fix: IntLinIncR3 draws point systems when asked to

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 867b0ff..1b82bf8 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -610,7 +610,7 @@ def IntLinIncR3(
     """
 
     if not (isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES)):
-        return lineqs3D(A, b, show=False, color=color,
+        return lineqs3D(A, b, show=show, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
-- 
2.43.0


From f003d3afd0622c2a97d1db8eaeff97b7eccb2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 49/75] fix: in-place operators keep the shape of an interval
 array in step with its data

---
 intvalpy/kernel/real_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 84cafa5..daffe53 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -314,19 +314,19 @@ class ArrayInterval:
             return ArrayInterval(matmul)
 
     def __iadd__(self, other):
-        self._data = np.array(self._data + other)
+        ArrayInterval.__init__(self, np.array(self._data + other))
         return self
 
     def __isub__(self, other):
-        self._data = np.array(self._data - other)
+        ArrayInterval.__init__(self, np.array(self._data - other))
         return self
 
     def __imul__(self, other):
-        self._data = np.array(self._data * other)
+        ArrayInterval.__init__(self, np.array(self._data * other))
         return self
 
     def __itruediv__(self, other):
-        self._data = np.array(self._data / other)
+        ArrayInterval.__init__(self, np.array(self._data / other))
         return self
 
     def __array_ufunc__(self, *args):
-- 
2.43.0


From 1e204181f05046292d459d6b704b685c9d3e080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 50/75] fix: objective Uni with norm l1: residuals containing
 zero have a zero subgradient

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index a958bb9..69f0b20 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -189,6 +189,8 @@ class ISPAE(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if mig[mc] == 0:
+                continue
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index bb0cae9..89f1b9b 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -43,6 +43,8 @@ class WILS(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if mig[mc] == 0:
+                continue
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
-- 
2.43.0


From eaadefbc6186b8d8ad0aab0344e6fb2122ad735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 51/75] fix: printed form of interval arrays when numpy puts
 the dtype on a line of its own

---
 intvalpy/kernel/real_intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index daffe53..2e1be9f 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -28,7 +28,8 @@ class ArrayInterval:
         self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
 
     def __repr__(self):
-        return 'Interval' + self._data.__repr__()[5:-15] + ')'
+        # cut off 'array' and the dtype, which numpy may put on a line of its own
+        return 'Interval' + self._data.__repr__()[5:].rsplit(',', 1)[0] + ')'
 
     def __iter__(self):
         return self._data.__iter__()
-- 
2.43.0


From 85af7f1ffc8fc6dc3da6f5742a403c63223f01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 52/75] fix: methods of numpy functions (outer, reduce, at,
 ...) on intervals gave the result of the plain call

---
 intvalpy/kernel/interval_arithmetics.pyx | 3 +++
 intvalpy/kernel/real_intervals.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 8eb833e..814ce7f 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -411,6 +411,9 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            raise NotImplementedError(f"The method {args[1]} of the {args[0].__name__} function is not provided!")
+
         if args[2] is self and len(args) > 3:
             # the interval is the left operand
             if args[0].__name__ in ['add']:
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 2e1be9f..c48b739 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -331,6 +331,9 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            raise Exception("The method {} of the {} function is not provided!".format(args[1], args[0].__name__))
+
         if args[2] is self and len(args) > 3:
             # the interval array is the left operand
             if args[0].__name__ in ['add']:
-- 
2.43.0


From 603fe1953b3f116a67c419e424fb458106863f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 53/75] fix: conversion of interval arrays by numpy with a
 dtype (np.dot, powers with interval array exponents)

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index c48b739..2168129 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -142,8 +142,8 @@ class ArrayInterval:
     def __deepcopy__(self, memo):
         return ArrayInterval(np.copy(self._data))
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype, copy=copy)
 
     @property
     def T(self):
-- 
2.43.0


From 7806c41ea8ebbb1d8d024eaa9ed2905293377a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 54/75] fix: containment of something that is neither a number
 nor an interval raises

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 814ce7f..7838ddc 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -262,7 +262,7 @@ cdef class BaseTools:
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
         else:
-            TypeError('Not supported type.')
+            raise TypeError('Not supported type.')
                         
     def __lt__(self, other):
         if isinstance(other, Number):
-- 
2.43.0


From 3e6ebbbffb519129b2ee016e8e3c100117ae3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 55/75] fix: operations on empty interval arrays

---
 intvalpy/kernel/elementary_functions.py  |  2 +-
 intvalpy/kernel/interval_arithmetics.pyx | 12 +++++-----
 intvalpy/kernel/preprocessing.py         |  6 ++---
 intvalpy/kernel/real_intervals.py        | 29 ++++++++++++------------
 intvalpy/kernel/utils.py                 |  2 +-
 5 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/intvalpy/kernel/elementary_functions.py b/intvalpy/kernel/elementary_functions.py
index 61b040e..49906bb 100644
--- a/intvalpy/kernel/elementary_functions.py
+++ b/intvalpy/kernel/elementary_functions.py
@@ -119,4 +119,4 @@ def sign(x):
     if isinstance(x, ARITHMETICS):
         return _sign(x)
     else:
-        return asinterval(np.vectorize(_sign)(x.data))
\ No newline at end of file
+        return asinterval(np.vectorize(_sign, otypes=[object])(x.data))
\ No newline at end of file
diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 7838ddc..a47fc62 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -555,7 +555,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         else:
             # Для массивов
-            return np.vectorize(lambda o: o + self)(other)
+            return np.vectorize(lambda o: o + self, otypes=[object])(other)
     
     def __rsub__(self, other):
         cdef double_t inf, sup
@@ -566,7 +566,7 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = upper(other - self.a)
             return ClassicalArithmetic(inf, sup)
         else:
-            return np.vectorize(lambda o: o - self)(other)
+            return np.vectorize(lambda o: o - self, otypes=[object])(other)
     
     def __rmul__(self, other):
         cdef double_t inf, sup
@@ -577,7 +577,7 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = upper(max(other * self.a, other * self.b))
             return ClassicalArithmetic(inf, sup)
         else:
-            return np.vectorize(lambda o: o * self)(other)
+            return np.vectorize(lambda o: o * self, otypes=[object])(other)
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
@@ -702,7 +702,7 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = upper(self.b + other)
             return KaucherArithmetic(inf, sup)
         else:
-            return np.vectorize(lambda o: o + self)(other)
+            return np.vectorize(lambda o: o + self, otypes=[object])(other)
     
     def __rsub__(self, other):
         cdef double_t inf, sup
@@ -713,13 +713,13 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = upper(other - self.a)
             return KaucherArithmetic(inf, sup)
         else:
-            return np.vectorize(lambda o: o - self)(other)
+            return np.vectorize(lambda o: o - self, otypes=[object])(other)
     
     def __rmul__(self, other):
         if isinstance(other, Number):
             return self * KaucherArithmetic(other, other)
         else:
-            return np.vectorize(lambda o: o * self)(other)
+            return np.vectorize(lambda o: o * self, otypes=[object])(other)
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index d52a0f7..21ba91d 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -135,10 +135,10 @@ def intersection(x, y):
     x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
-        return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
+        return ArrayInterval(np.vectorize(intersect, otypes=[object])(x.data, y.data))
     elif isinstance(x, ARITHMETICS) and isinstance(y, ArrayInterval):
-        return ArrayInterval(np.vectorize(intersect)(x, y.data))
+        return ArrayInterval(np.vectorize(intersect, otypes=[object])(x, y.data))
     elif isinstance(x, ArrayInterval) and isinstance(y, ARITHMETICS):
-        return ArrayInterval(np.vectorize(intersect)(x.data, y))
+        return ArrayInterval(np.vectorize(intersect, otypes=[object])(x.data, y))
     else:
         return intersect(x, y)
\ No newline at end of file
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 2168129..8e9b68f 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -67,7 +67,7 @@ class ArrayInterval:
         return self._ranges
 
     def to_float(self):
-        return ArrayInterval(np.vectorize(lambda el: el.to_float())(self._data))
+        return ArrayInterval(np.vectorize(lambda el: el.to_float(), otypes=[object])(self._data))
 
     @property
     def rad(self):
@@ -91,19 +91,19 @@ class ArrayInterval:
 
     @property
     def dual(self):
-        return ArrayInterval(np.vectorize(lambda el: el.dual)(self._data))
+        return ArrayInterval(np.vectorize(lambda el: el.dual, otypes=[object])(self._data))
 
     @property
     def pro(self):
-        return ArrayInterval(np.vectorize(lambda el: el.pro)(self._data))
+        return ArrayInterval(np.vectorize(lambda el: el.pro, otypes=[object])(self._data))
 
     @property
     def opp(self):
-        return ArrayInterval(np.vectorize(lambda el: el.opp)(self._data))
+        return ArrayInterval(np.vectorize(lambda el: el.opp, otypes=[object])(self._data))
 
     @property
     def inv(self):
-        return ArrayInterval(np.vectorize(lambda el: el.inv)(self._data))
+        return ArrayInterval(np.vectorize(lambda el: el.inv, otypes=[object])(self._data))
 
     @property
     def khi(self):
@@ -160,9 +160,10 @@ class ArrayInterval:
 
     def __abs__(self):
         """Range of absolute value."""
-        return ArrayInterval(np.vectorize(abs)(self._data))
+        return ArrayInterval(np.vectorize(abs, otypes=[object])(self._data))
 
     def __contains__(self, other):
+        contain = False
         if isinstance(other, single_type) or isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             for index in itertools.product(*self._ranges):
                 contain = other in self._data[index]
@@ -236,7 +237,7 @@ class ArrayInterval:
             if isinstance(value, single_type):
                 self._data[key] = SingleInterval(value, value)
             else:
-                self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))._data
+                self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v), otypes=[object])(value))._data
 
     def __delitem__(self, key):
         if isinstance(key, (int, np.integer, slice, list, np.ndarray)):
@@ -286,7 +287,7 @@ class ArrayInterval:
             return ArrayInterval(self._data / other)
 
     def __pow__(self, other):
-        return ArrayInterval(np.vectorize(pow)(self._data, other))
+        return ArrayInterval(np.vectorize(pow, otypes=[object])(self._data, other))
 
     def __matmul__(self, other):
         matmul = self._data @ other
@@ -371,19 +372,19 @@ class ArrayInterval:
                 return ArrayInterval(matmul)
 
         elif args[0].__name__ in ['sqrt']:
-            return ArrayInterval(np.vectorize(np.sqrt)(self._data))
+            return ArrayInterval(np.vectorize(np.sqrt, otypes=[object])(self._data))
 
         elif args[0].__name__ in ['exp']:
-            return ArrayInterval(np.vectorize(np.exp)(self._data))
+            return ArrayInterval(np.vectorize(np.exp, otypes=[object])(self._data))
 
         elif args[0].__name__ in ['log']:
-            return ArrayInterval(np.vectorize(np.log)(self._data))
+            return ArrayInterval(np.vectorize(np.log, otypes=[object])(self._data))
 
         elif args[0].__name__ in ['sin']:
-            return ArrayInterval(np.vectorize(np.sin)(self._data))
+            return ArrayInterval(np.vectorize(np.sin, otypes=[object])(self._data))
 
         elif args[0].__name__ in ['cos']:
-            return ArrayInterval(np.vectorize(np.cos)(self._data))
+            return ArrayInterval(np.vectorize(np.cos, otypes=[object])(self._data))
 
         else:
             raise Exception("Calculation of the {} function is not provided!".format(args[0].__name__))
@@ -498,4 +499,4 @@ def Interval(*args, sortQ=True, midRadQ=False):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
-    return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
+    return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ), otypes=[object])(data[..., 0], data[..., 1]))
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index a8e4873..3bb4d68 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -83,7 +83,7 @@ def isnan(x):
     if isinstance(x, ARITHMETICS):
         return _isnan(x)
     else:
-        return np.vectorize(_isnan)(x.data)
+        return np.vectorize(_isnan, otypes=[bool])(x.data)
     
 
 def wid(x):
-- 
2.43.0


From 647bdb9d5cd6c99ab057bff89f1851398df73264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 56/75] fix: powers of an interval with a numeric array of
 exponents

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index a47fc62..4e6f58e 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -540,6 +540,8 @@ cdef class ClassicalArithmetic(BaseTools):
                 return ClassicalArithmetic(0.0, sup)
             else:
                 return ClassicalArithmetic(inf, sup)
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self ** o, otypes=[object])(other)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
@@ -688,6 +690,8 @@ cdef class KaucherArithmetic(BaseTools):
                 return KaucherArithmetic(inf, sup)
             else:
                 return ClassicalArithmetic(inf, sup)
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self ** o, otypes=[object])(other)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
-- 
2.43.0


From 51701a4f6797a39a573b7437b1d4225bd4a3926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 57/75] fix: copy.copy, copy.deepcopy and pickle of a single
 interval

---
 intvalpy/kernel/interval_arithmetics.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 4e6f58e..c1e6240 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -178,6 +178,9 @@ cdef class BaseTools:
         else:
             return self
     
+    def __reduce__(self):
+        return type(self), (self.a, self.b)
+    
     @property
     def wid(self):
         """Width of the non-empty interval."""
-- 
2.43.0


From e11902b81702a32207ad59ac861df8d510ec883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 58/75] fix: copy.copy of an interval array shares its data
 with the original

---
 intvalpy/kernel/real_intervals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 8e9b68f..b75acf8 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -139,6 +139,9 @@ class ArrayInterval:
     def copy(self):
         return ArrayInterval(np.copy(self._data))
 
+    def __copy__(self):
+        return self.copy()
+
     def __deepcopy__(self, memo):
         return ArrayInterval(np.copy(self._data))
 
-- 
2.43.0


From 2ba07a6ecb150f43a24d77ab5c42e3c6a759f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 59/75] fix: operations with numpy numbers of narrow types
 overflow or lose precision

---
 intvalpy/kernel/interval_arithmetics.pyx | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index c1e6240..5b53b2f 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,16 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INFINITY)    
 
 
+cdef object plain(object x):
+    """numpy's numbers compute in the range and precision of their type, hence Python's numbers instead."""
+    if isinstance(x, np.generic):
+        return x.item()
+    elif isinstance(x, np.ndarray):
+        return x.astype(object)
+    else:
+        return x
+
+
 cdef object power(object x, object n, int mode):
     """x**n rounded in the given direction (the pow function of libm does not obey the rounding mode)."""
     if x < 0 and n % 2 == 1:
@@ -486,7 +496,7 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = upper(self.b - other.a)
             return type(other)(inf, sup)
         else:
-            return -other + self
+            return -plain(other) + self
     
     def __mul__(self, other):
         cdef double_t inf, sup
@@ -553,6 +563,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = plain(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = lower(self.a + other)
             with RoundingContext(FE_UPWARD):
@@ -565,6 +576,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = plain(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = lower(other - self.b)
             with RoundingContext(FE_UPWARD):
@@ -576,6 +588,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rmul__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = plain(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = lower(min(other * self.a, other * self.b))
             with RoundingContext(FE_UPWARD):
@@ -616,7 +629,7 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = upper(self.b - other.a)
             return KaucherArithmetic(inf, sup)
         else:
-            return -other + self
+            return -plain(other) + self
     
     def __mul__(self, other):
         cdef double_t inf, sup
@@ -703,6 +716,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = plain(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = lower(self.a + other)
             with RoundingContext(FE_UPWARD):
@@ -714,6 +728,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = plain(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = lower(other - self.b)
             with RoundingContext(FE_UPWARD):
@@ -724,6 +739,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return self * KaucherArithmetic(other, other)
         else:
             return np.vectorize(lambda o: o * self, otypes=[object])(other)
-- 
2.43.0


From 311ac812c42c2cefcacacf25129e00bb61a54adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 60/75] fix: comparisons with numpy numbers of low precision

---
 intvalpy/kernel/interval_arithmetics.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 5b53b2f..f6ef0d8 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -271,6 +271,7 @@ cdef class BaseTools:
     
     def __contains__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a <= other) and (other <= self.b)
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
@@ -279,6 +280,7 @@ cdef class BaseTools:
                         
     def __lt__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a < other) and (self.b < other)
         elif isinstance(other, ARITHMETICS):
             return (self.a < other.a) and (self.b < other.b)
@@ -287,6 +289,7 @@ cdef class BaseTools:
     
     def __le__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a <= other) and (self.b <= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (self.b <= other.b)
@@ -295,6 +298,7 @@ cdef class BaseTools:
     
     def __eq__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a == other) and (self.b == other)
         elif isinstance(other, ARITHMETICS):
             return (self.a == other.a) and (self.b == other.b)
@@ -303,6 +307,7 @@ cdef class BaseTools:
     
     def __ne__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a != other) or (self.b != other)
         elif isinstance(other, ARITHMETICS):
             return (self.a != other.a) or (self.b != other.b)
@@ -311,6 +316,7 @@ cdef class BaseTools:
     
     def __gt__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a > other) and (self.b > other)
         elif isinstance(other, ARITHMETICS):
             return (self.a > other.a) and (self.b > other.b)
@@ -319,6 +325,7 @@ cdef class BaseTools:
     
     def __ge__(self, other):
         if isinstance(other, Number):
+            other = plain(other)
             return (self.a >= other) and (self.b >= other)
         elif isinstance(other, ARITHMETICS):
             return (self.a >= other.a) and (self.b >= other.b)
-- 
2.43.0


From 5e8a665dabd6a3ad065e85d485642920d34a6b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 61/75] fix: midpoint and radius given as numpy numbers of
 narrow types

---
 intvalpy/kernel/real_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index b75acf8..1064d43 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -412,6 +412,8 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
 
     if midRadQ:
         assert right >= 0, "The radius of the interval cannot be negative."
+        # numpy's numbers would be added in the range and precision of their type
+        left, right = (v.item() if isinstance(v, np.generic) else v for v in (left, right))
         left, right = left - right, left + right
 
     ##############################
-- 
2.43.0


From 1711d5aa9a41f92d10ba18bfe37c876bb4c0361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 62/75] fix: systems of inequalities with numpy arrays of
 narrow types

---
 intvalpy/linear/boundary_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 1b82bf8..9ebe1e0 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,8 +182,8 @@ def lineqs(
     if isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES):
         raise Exception('Interval type system!')
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    A = np.asarray(A, dtype=float)
+    b = np.asarray(b, dtype=float)
 
     n, m = A.shape
     assert m <= 2, "There should be two columns in matrix A."
@@ -420,8 +420,8 @@ def lineqs3D(
             If show = True, then the graph is drawn.
     """
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    A = np.asarray(A, dtype=float)
+    b = np.asarray(b, dtype=float)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
     if not cnmty:
-- 
2.43.0


From 25638ad7f63b5ea61fe0a2e31dfdce76914e0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 63/75] fix: optimisation with a number or unsigned integers as
 weights

---
 intvalpy/kernel/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 3ff8ced..81de970 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -43,8 +43,8 @@ class BaseRecFun(object):
         Am, Ar = mid(A), rad(A)
         bm, br = mid(b), rad(b)
 
-        if weight is None:
-            weight = np.ones(n)
+        # one number is the weight of every equation
+        weight = np.ones(n) if weight is None else np.ones(n) * weight
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
-- 
2.43.0


From 4989d7e1ace8057f822906dce551c1f8f8f49c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 64/75] fix: points given to ChebNorm as lists or unsigned
 integers

---
 intvalpy/kernel/abstract.py | 2 +-
 intvalpy/linear/ChebNorm.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 81de970..16c0536 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -72,7 +72,7 @@ class BaseRecFun(object):
             else:
                 x0 = np.zeros(m)
         else:
-            x0 = np.copy(x0)
+            x0 = np.array(x0, dtype=np.float64)
 
         return ralgb5(calcfg, x0, **kwargs)
 
diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index d4a1b5b..8c974ef 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -12,6 +12,7 @@ class ChebNorm:
         if weight is None:
             weight = np.ones(len(b))
 
+        x = np.asarray(x, dtype=np.float64)
         A_opt = ChebNorm.__calc_opt_A(x, A.a, A.b, b.mid)
         return weight * (b.rad.T + abs(b.mid.T - A_opt @ x))
 
-- 
2.43.0


From bb8b46c4fb4633a5dab7186a1db38b25836c0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 65/75] fix: linear constraints given as lists or unsigned
 integers

---
 intvalpy/kernel/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 16c0536..5cb85f7 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -211,6 +211,9 @@ class LinearConstraint:
         # идёт преобразование C x <= b
         # надо удалить все строки, где значение inf, а также, где нет зависимости от x
 
+        C = np.asarray(C, dtype=np.float64)
+        lb, ub = (v if v is None else np.asarray(v, dtype=np.float64) for v in (lb, ub))
+
         assert C.shape[0] >= 1, 'Inconsistent dimension of matrix'
         if (not lb is None) or (not ub is None):
             self.C, self.b = [], []
-- 
2.43.0


From fc990da4b3415cd39d1be89c27e41f51f923be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 66/75] fix: lineqs and IntLinIncR2 repeat a vertex and fail
 for large coordinates

---
 intvalpy/linear/boundary_intervals.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 9ebe1e0..295029e 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -76,21 +76,23 @@ def ParticularPoints(S, A, b):
 
 
 def Intervals2Path(S):
+    def close(p, q):
+        # large coordinates have larger rounding errors
+        return np.max(np.abs(p - q)) < max(1e-8, 1e-10 * np.max(np.abs(p)))
+
     bs, bp = S[0, :2], S[0, :2]
     P = [bp]
 
     while len(S) > 0:
-        for k in range(len(S)):
-            if np.max(np.abs(bs - S[k, :2])) < 1e-8:
-                index = k
-                break
+        index = np.argmin(np.max(np.abs(bs - S[:, :2]), axis=1))
         es = S[index, 2:4]
 
-        if np.max(np.abs(bs-es)) > 1e-8:
-            P.append(es)
-
-            if np.max(np.abs(bp-es)) < 1e-8:
+        if not close(bs, es):
+            if close(bp, es):
+                # the path ends exactly where it began
+                P.append(bp)
                 return np.array(P)
+            P.append(es)
             bs = es
         S = np.delete(S, index, axis=0)
     return np.array(P)
-- 
2.43.0


From 8ade6f00a7600d6e6a3aca8061b024643e491711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 67/75] fix: lineqs3D loses faces and vertices of systems with
 large or small rows

---
 intvalpy/linear/boundary_intervals.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 295029e..2d3b0cf 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -108,6 +108,8 @@ def ChangeVariable(A, b, k):
 
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
+    # bring them to a length of about one; division by a power of two is exact
+    y1, y2 = (y / 2.0**np.frexp(np.max(np.abs(y)))[1] for y in (y1, y2))
 
     index = np.array([l for l in range(len(A)) if l != k], dtype=int)
     A, b = A[index], b[index]
@@ -115,7 +117,12 @@ def ChangeVariable(A, b, k):
     At = np.array([A @ y1, A @ y2]).T
     bt = b - A @ xi
 
-    return xi, At, bt, y1, y2
+    # the planes that are parallel up to rounding errors
+    norm = np.linalg.norm(A, axis=1)
+    parallel = np.max(np.abs(At), axis=1, initial=0) <= 1e-14 * norm
+    cnmty = not np.any((bt > 1e-14 * (np.abs(b) + norm * np.linalg.norm(xi))) & parallel)
+
+    return xi, At[~parallel], bt[~parallel], cnmty, y1, y2
 
 
 __center_rm = []
@@ -440,8 +447,7 @@ def lineqs3D(
     cfinite = True
 
     for k in range(n):
-        xi, At, bt, y1, y2 = ChangeVariable(A, b, k)
-        At, bt, cnmtyt = clear_zero_rows(At, bt)
+        xi, At, bt, cnmtyt, y1, y2 = ChangeVariable(A, b, k)
 
         if not cnmtyt:
             continue
@@ -503,8 +509,7 @@ def lineqs3D(
     vertices = []
     mn = len(b)
     for i in range(mn):
-        xi, At, bt, y1, y2 = ChangeVariable(A, b, i)
-        At, bt, cnmtyt = clear_zero_rows(At, bt)
+        xi, At, bt, cnmtyt, y1, y2 = ChangeVariable(A, b, i)
 
         if not cnmtyt:
             continue
-- 
2.43.0


From 80599c22aa37b5f2876c23399de2956693c07882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 68/75] fix: rounding of the rows makes parallel inequalities
 intersect

---
 intvalpy/kernel/preprocessing.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 21ba91d..91bec48 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -23,10 +23,9 @@ def unique(a, decimals=12):
 
 
 def non_repeat(a, b):
-    a = np.copy(np.ascontiguousarray(a))
-    a = np.around(a, decimals=12)
-    b = np.around(np.copy(b), decimals=12)
-    a1 = np.column_stack((a, b))
+    a, b = np.array(a, order='C'), np.array(b)
+    # the rounding is for the comparison only: rounded rows that were parallel are parallel no longer
+    a1 = np.column_stack((np.around(a, decimals=12), np.around(b, decimals=12)))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
@@ -34,13 +33,13 @@ def non_repeat(a, b):
 
 def clear_zero_rows(a, b, ndim=2):
     a, b = np.ascontiguousarray(a), np.ascontiguousarray(b)
-    a, b = np.around(a, decimals=12), np.around(b, decimals=12)
+    zero = np.sum(abs(np.around(a, decimals=12)) <= 1e-12, axis=1) == ndim
 
     cnmty = True
-    if np.sum((np.sum(abs(a) <= 1e-12, axis=1) == ndim) & (b > 0)) > 0:
+    if np.sum(zero & (np.around(b, decimals=12) > 0)) > 0:
         cnmty = False
 
-    index = np.where(np.sum(abs(a) <= 1e-12, axis=1) != ndim)
+    index = np.where(~zero)
     return a[index], b[index], cnmty
 
 
-- 
2.43.0


From 82d1827c7c0db02a9934dfbd2920056f8ee8148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 69/75] fix: PSS loses solutions or fails for systems with
 large or small numbers

---
 intvalpy/linear/PSS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index b976031..e9542b5 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -159,7 +159,11 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def solve_lp(c, A_ub, b_ub):
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
-        args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
+        # glpk compares with absolute tolerances; multiplication by a power of two is exact
+        rows = 2.0**np.frexp(np.max(np.abs(A_ub), axis=1))[1]
+        size = np.max(np.abs(b_ub / rows)[:2*n].reshape(2, n), axis=0) * A_ub[:n].any(axis=1)
+        unit = 2.0**np.frexp(np.min(size[size > 0]) if size.any() else 1.0)[1]
+        args = [asmatrix(c), asmatrix(A_ub / rows[:, np.newaxis]), asmatrix(b_ub / rows / unit)]
 
         # on thin bars the simplex method may cycle, therefore the number of its steps is limited
         for method in ['GLP_PRIMAL', 'GLP_DUALP']:
@@ -169,7 +173,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                 break
         if 'optimal' not in result['status']:
             raise Exception("LP optimum not found: %s" % result['status'])
-        return np.array(result['x']).reshape(c.shape[0])
+        return unit * np.array(result['x']).reshape(c.shape[0])
 
     def ExactOmega(midA, radA, b, Q):
         # a bar that ends at zero lies within one orthant as well
-- 
2.43.0


From c694d3fec49a1eca8cd6dd8a93e3399fef552948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 70/75] fix: PSS of overdetermined systems ends the process
 when Rohn's iterations diverge

---
 intvalpy/linear/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index e9542b5..d4746e5 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -141,6 +141,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         if n > m:
             try:
                 V = Rohn(A, b)
+                # the iterations of Rohn's method may diverge
+                assert np.all(np.isfinite(V.a.astype(np.float64))) and np.all(np.isfinite(V.b.astype(np.float64)))
             except:
                 V = Interval([-10**14]*m, [10**14]*m, sortQ=False)
         else:
-- 
2.43.0


From 37126becbcb41f0f9dec1f7edaa3da7670daad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 71/75] fix: Rohn refuses or misjudges tolerable sets of
 systems with large or small numbers

---
 intvalpy/linear/Rohn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..54ea6ea 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -43,6 +43,13 @@ def _Rohn_Tol(A, b, nu=None):
         return inf, sup
 
     n, m = A.shape
+    # Tol and glpk compare with absolute tolerances; division by a power of two is exact
+    rows = 2.0**np.frexp(np.max(A.mag, axis=1).astype(np.float64))[1]
+    A, b = A / rows[:, np.newaxis], b / rows
+    size = np.where(A.mag.any(axis=1), b.mag, 0).astype(np.float64)
+    unit = 2.0**np.frexp(np.min(size[size > 0]) if size.any() else 1.0)[1]
+    b = b / unit
+
     _, tolval, _, _, _ = Tol.maximize(A, b)
     if tolval < 0:
         raise Exception('Допусковое множество решений пусто!')
@@ -58,7 +65,7 @@ def _Rohn_Tol(A, b, nu=None):
         _inf.append(inf)
         _sup.append(sup)
 
-    return Interval(_inf, _sup, sortQ=False)
+    return unit * Interval(_inf, _sup, sortQ=False)
 
 
 def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
-- 
2.43.0


From de4bd7d3af8d1627d60d60a047725a2aa66b1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 72/75] fix: drawing windows of lineqs and IntLinIncR2/R3 are
 shared between threads

---
 intvalpy/linear/boundary_intervals.py | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 2d3b0cf..f7245b2 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -1,3 +1,4 @@
+import threading
 import numpy as np
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
@@ -125,7 +126,14 @@ def ChangeVariable(A, b, k):
     return xi, At[~parallel], bt[~parallel], cnmty, y1, y2
 
 
-__center_rm = []
+class _Windows(threading.local):
+    """Sizes of the windows that were chosen for unbounded sets, separate for every thread."""
+
+    def __init__(self):
+        self.sizes = []
+
+
+__center_rm = _Windows()
 def lineqs(
         A, 
         b, 
@@ -216,7 +224,7 @@ def lineqs(
             rm = max((PPmax - PPmin)/2)
             if rm <= 1e-8 * (1 + np.max(np.abs(center))):
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 5*rm)])
+            __center_rm.sizes.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
 
@@ -345,18 +353,17 @@ def IntLinIncR2(
                 raise Exception(msg)
 
             vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
-    global __center_rm
-    __center_rm = []
+    __center_rm.sizes = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(__center_rm.sizes) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(__center_rm.sizes))
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
+    __center_rm.sizes = []
 
     if show:
         fig = plt.figure(figsize=size)
@@ -498,7 +505,7 @@ def lineqs3D(
 
             if rm <= 1e-8 * (1 + np.max(np.abs(center))):
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 1*rm)])
+            __center_rm.sizes.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
             b = np.append(np.append(b, center-rm), -(center+rm))
         else:
@@ -668,18 +675,17 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
-    global __center_rm
-    __center_rm = []
+    __center_rm.sizes = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(__center_rm.sizes) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(__center_rm.sizes))
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
+    __center_rm.sizes = []
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0


From d1f4051ad81491592f6e3babba51761e8fed87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:59 +0000
Subject: [PATCH 73/75] fix: the subgradient method stops before it has begun
 to move in problems of several variables

---
 intvalpy/kernel/ralgb5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index 1b877d4..663110c 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2.3, nsims=30, h0=1, nh=3, q1=0.9, q2=1.1):
+def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2.3, nsims=None, h0=1, nh=3, q1=0.9, q2=1.1):
     """
     Subgradient method ralgb5 for minimizing convex functions with ravine-like structure.
 
@@ -40,7 +40,8 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
     nsims : int, optional
         Number of iterations to consider for the stopping criterion based on the change in the function value
-        (default is 30).
+        (default is 30 + 10*n, where n is the number of variables: at the bottom of a ravine the method needs
+        several iterations per variable to stretch the space before the value begins to change).
 
     h0 : float, optional
         Initial step size (default is 1). This is the starting step size for the line search along the
@@ -94,6 +95,8 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
     # Initialize variables
     m = len(x0) # Number of variables
+    if nsims is None:
+        nsims = 30 + 10*m
     hs = h0 # Current step size
     B = np.eye(m) # Transformation matrix (initially identity)
     vf = np.zeros(nsims) + float('inf') # Array to store function values for stopping criterion
-- 
2.43.0


From 59d318293bfe3984b047ed97ec48a3498da8d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 74/75] fix: endpoints of numpy's small types are sorted in the
 precision of their type

---
 intvalpy/kernel/real_intervals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 1064d43..69d7661 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -420,13 +420,15 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
     # if left == right:
         # return left
 
+    # numpy's numbers would be compared in the precision of their type
+    l, r = (v.item() if isinstance(v, np.generic) else v for v in (left, right))
     if sortQ:
-        if left > right:
+        if l > r:
             return ClassicalArithmetic(right, left)
         else:
             return ClassicalArithmetic(left, right)
     else:
-        if left <= right:
+        if l <= r:
             return ClassicalArithmetic(left, right)
         else:
             return KaucherArithmetic(left, right)
-- 
2.43.0


From 23a3df592fe705770f8684ce99c55531b0c944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:17 +0000
Subject: [PATCH 75/75] fix: constraints are ignored where the functional does
 not depend on x

---
 intvalpy/kernel/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 5cb85f7..f987b07 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -275,5 +275,6 @@ class LinearConstraint:
             dot = abs(dot[1:])
             denominator.append(min(dot[dot > 1e-12 * max(abs(c))]))
 
-        self.mu = numerator / min(denominator, default=1.0)
+        # the penalty of a violation must be positive, even where the functional does not depend on x
+        self.mu = (numerator if numerator > 0 else 1.0) / min(denominator, default=1.0)
         return self.mu
\ No newline at end of file
-- 
2.43.0

