From f801157f13258edd2202818d3748907ca08c24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 01/46] fix: count a child shared by several dterms once in the
 chain rule

compute_dr_wrt(p) returns the derivative over every dterm that p occupies, but
dr_wrt/lop/lmult_wrt added it once per dterm: with c = x*1, (c+c).dr_wrt(x) was 4.
---
 chumpy/ch.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e903df9..cddca6b 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -657,10 +657,12 @@ class Ch(object):
         if direct_dr != None:
             drs.append(self._superdot(lhs, direct_dr))
 
+        visited = set() # compute_dr_wrt(p) already covers every dterm occupied by p
         for k in set(self.dterms):
             p = self.__dict__[k]
 
-            if hasattr(p, 'dterms') and p is not wrt and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in visited and p.is_dr_wrt(wrt):
+                visited.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
                     raise Exception('Broken Should be Ch object')
@@ -695,9 +697,11 @@ class Ch(object):
         if direct_dr is not None:
             drs.append(direct_dr)
 
+        visited = set() # compute_dr_wrt(p) already covers every dterm occupied by p
         for k in set(self.dterms):
             p = getattr(self, k) # self.__dict__[k]
-            if hasattr(p, 'dterms') and p is not wrt: # and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in visited: # and p.is_dr_wrt(wrt):
+                visited.add(id(p))
                 lhs_for_child = self.compute_lop(p, lhs)
                 if lhs_for_child is not None: # Can be None with ChLambda, _result etc
                     indirect_dr = p.lop(wrt, lhs_for_child)
@@ -750,11 +754,13 @@ class Ch(object):
             self._status = 'pending'
         
         propnames = set(_props_for(self.__class__))
+        visited = set() # compute_dr_wrt(p) already covers every dterm occupied by p
         for k in set(self.dterms).intersection(propnames.union(set(self.__dict__.keys()))):
 
             p = getattr(self, k)
 
-            if hasattr(p, 'dterms') and p is not wrt:
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in visited:
+                visited.add(id(p))
 
                 indirect_dr = None
 
-- 
2.43.0


From 137e3c881ab39bedc67772dff3e3a41e56c2ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 02/46] fix: derivative of cross(a, a) must include both
 operands

---
 chumpy/ch_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index f5f2f74..38cf786 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -151,9 +151,10 @@ class Cross(Ch):
         
         #import time
         #tm = time.time()
+        result = 0.
         if wrt is self.a:
             rp = np.repeat(-self.b.r, w, axis=0) 
-            result = np.cross(
+            result = result + np.cross(
                 tiled_identity, 
                 rp,
                 self.axisa,
@@ -161,8 +162,8 @@ class Cross(Ch):
                 self.axisc, 
                 self.axis)
 
-        elif wrt is self.b:
-            result = np.cross(
+        if wrt is self.b:
+            result = result + np.cross(
                 np.repeat(-self.a.r, w, axis=0),
                 tiled_identity,
                 self.axisa,
-- 
2.43.0


From 53b13b99028b4e9c0f5b54d68653b85b48f8861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 03/46] fix: reverse mode compared derivatives to None
 elementwise

'direct_dr != None' raises for dense Jacobians with more than one entry.
---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cddca6b..2cd98fa 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -654,7 +654,7 @@ class Ch(object):
 
         direct_dr = self._compute_dr_wrt_sliced(wrt)
 
-        if direct_dr != None:
+        if direct_dr is not None:
             drs.append(self._superdot(lhs, direct_dr))
 
         visited = set() # compute_dr_wrt(p) already covers every dterm occupied by p
@@ -770,7 +770,7 @@ class Ch(object):
                         tm_dr_wrt.pause()
                         dr2 = p.dr_wrt(wrt)
                         tm_dr_wrt.resume()
-                        indirect_dr = lhs.matmat(dr2) if dr2 != None else None
+                        indirect_dr = lhs.matmat(dr2) if dr2 is not None else None
                     else:
                         indirect_dr = p.lmult_wrt(lhs, wrt)
                 else: # forward mode
-- 
2.43.0


From 453fc2b90fbbe40bbe3b77002a833772ab754b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 04/46] fix: reverse mode dropped derivatives wrt selections

is_dr_wrt() is False for a selection of a variable which is not itself a node of
the graph, so lmult_wrt() lost every contribution below the second level.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 2cd98fa..75fa325 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -661,7 +661,7 @@ class Ch(object):
         for k in set(self.dterms):
             p = self.__dict__[k]
 
-            if hasattr(p, 'dterms') and p is not wrt and id(p) not in visited and p.is_dr_wrt(wrt):
+            if hasattr(p, 'dterms') and p is not wrt and id(p) not in visited:
                 visited.add(id(p))
                 if not isinstance(p, Ch):
                     print('BROKEN!')
-- 
2.43.0


From 1176c0e1ea8304224ccc265f61c18a4d57dab913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 05/46] fix: derivative wrt a selection of a selection raised
 AttributeError

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 75fa325..01c68c1 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -307,7 +307,7 @@ class Ch(object):
         
             wrt._call_on_changed()
 
-            jac = wrt.compute_dr_wrt(inner).T
+            jac = wrt.dr_wrt(inner).T
 
             return self._superdot(result, jac)
 
-- 
2.43.0


From f1125fed1f24034f755692913915ac607458f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 06/46] fix: adding a 1x1 derivative given as a number to a
 sparse one raised

x = Ch(3.); (x + x.reshape(1)).dr_wrt(x) raised NotImplementedError.
---
 chumpy/ch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 01c68c1..c0b654f 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -678,6 +678,7 @@ class Ch(object):
             result = drs[0]
 
         else:
+            drs = [a if sp.issparse(a) or isinstance(a, LinearOperator) else np.atleast_2d(a) for a in drs]
             result = reduce(lambda x, y: x+y, drs)
 
         return result
@@ -791,6 +792,7 @@ class Ch(object):
             # TODO: ????????
             # result = np.sum(x for x in drs)
             if not np.any([isinstance(a, LinearOperator) for a in drs]):
+                drs = [a if sp.issparse(a) else np.atleast_2d(a) for a in drs]
                 result = reduce(lambda x, y: x+y, drs)
             else:
                 result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
-- 
2.43.0


From d5f2fad0476f8295f593cb93d0fcbe64c0fb806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 07/46] fix: sum of three or more LinearOperator derivatives

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index c0b654f..5fcf030 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -795,7 +795,7 @@ class Ch(object):
                 drs = [a if sp.issparse(a) else np.atleast_2d(a) for a in drs]
                 result = reduce(lambda x, y: x+y, drs)
             else:
-                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a.dot(x)+b.dot(x),drs))
+                result = LinearOperator(drs[0].shape, lambda x : reduce(lambda a, b: a+b, [dr.dot(x) for dr in drs]))
 
         # TODO: figure out how/whether to do this.
         if result is not None and not sp.issparse(result):
-- 
2.43.0


From f6907f761da57698c02d6a5424cbb8573a519af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 08/46] fix: make_dense/make_sparse were ignored on cached
 derivatives, and raised on None

---
 chumpy/ch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 5fcf030..a132f1f 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -813,6 +813,11 @@ class Ch(object):
         if (result is not None) and (not sp.issparse(result)) and (not isinstance(result, LinearOperator)):
             result = np.atleast_2d(result)
         
+        if getattr(self, '_make_dense', False) and sp.issparse(result):
+            result = result.todense()
+        if getattr(self, '_make_sparse', False) and result is not None and not sp.issparse(result):
+            result = sp.csc_matrix(result)
+
         # When the number of parents is one, it indicates that
         # caching this is probably not useful because not 
         # more than one parent will likely ask for this same
@@ -831,11 +836,6 @@ class Ch(object):
         if DEBUG:
             self._status = 'done'
         
-        if getattr(self, '_make_dense', False) and sp.issparse(result):
-            result = result.todense()
-        if getattr(self, '_make_sparse', False) and not sp.issparse(result):
-            result = sp.csc_matrix(result)
-        
         if tm_dr_wrt() > 0.1:
             pif('dx of {} wrt {} in {}sec, sparse: {}'.format(self.short_name, wrt.short_name, tm_dr_wrt(), sp.issparse(result)))
 
-- 
2.43.0


From 7d6114f8a6ce5a0d72f2ee616a99b973595b487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 09/46] fix: x.dr_wrt(x) raised when x was assigned a plain
 number

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a132f1f..cbc8cd0 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -275,7 +275,7 @@ class Ch(object):
     def compute_dr_wrt(self,wrt):
         """Default method for objects that just contain a number or ndarray"""
         if wrt is self: # special base case  
-            return sp.eye(self.x.size, self.x.size)
+            return sp.eye(self.r.size, self.r.size)
             #return np.array([[1]])
         return None
         
-- 
2.43.0


From 5edfddbbbcec63cc96a42ed4915e3018da40cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 10/46] fix: item assignment wrote into arrays shared with
 other objects

a[0] = 5 modified the caller's array in place, and with it the value of any other
Ch built from it, whose dependents then kept stale results.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index cbc8cd0..63ea756 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -508,7 +508,7 @@ class Ch(object):
         if hasattr(value, 'dterms'):
             raise Exception("Can't assign a Ch objects as a subset of another.")
         if type(self) == Ch:# self.is_ch_baseclass():
-            data = np.atleast_1d(self.x)
+            data = np.array(np.atleast_1d(self.x), dtype=np.float64)
             data.__setitem__(key, value)
             self.__setattr__('x', data, itr=itr)
             return
-- 
2.43.0


From 60f736ab881f12c3a9a889a88973abda349d9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 11/46] fix: assignment through views

v[0,:] = 5 raised for more than one entry, a NaN/inf could not be overwritten, and
old + new - old lost the new value to rounding.
---
 chumpy/ch.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 63ea756..fecc5c1 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -531,19 +531,17 @@ class Ch(object):
                 else: 
                     raise Exception("Can't set array that is function of arrays.")
 
-            self = self[key]
-            dr = self.dr_wrt(inner)
-            dr_rev = dr.T
-            #dr_rev = np.linalg.pinv(dr)
-            inner_shape = inner.shape
-
-            t1 = self._superdot(dr_rev, np.asarray(value).ravel())
-            t2 = self._superdot(dr_rev, self._superdot(dr, inner.x.ravel()))
-            if sp.issparse(t1): t1 = np.array(t1.todense())
-            if sp.issparse(t2): t2 = np.array(t2.todense())
-
-            inner.x = inner.x + t1.reshape(inner_shape) - t2.reshape(inner_shape)
-            #inner.x = inner.x + self._superdot(dr_rev, value.ravel()).reshape(inner_shape) - self._superdot(dr_rev, self._superdot(dr, inner.x.ravel())).reshape(inner_shape)
+            # Flat positions (counted from 1) in "inner" of the entries being assigned
+            sel = self[key]
+            idxs = sel._superdot(sel.dr_wrt(inner), np.arange(1., inner.size+1.))
+            idxs = np.asarray(idxs).ravel().astype(np.int64) - 1
+
+            newvals = np.empty(sel.shape)
+            newvals[...] = value
+
+            data = np.array(inner.r)
+            data.ravel()[idxs[idxs>=0]] = newvals.ravel()[idxs>=0]
+            inner.x = data
 
 
     def __str__(self):
-- 
2.43.0


From d0a3763336150bdf5969b29f773fe98ad3c3cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 12/46] fix: number / Ch raised TypeError on Python 3

---
 chumpy/ch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index fecc5c1..98e26ca 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1151,6 +1151,7 @@ class Ch(object):
     def __div__ (self, other): return divide(x1=self, x2=other)
     def __truediv__ (self, other): return divide(x1=self, x2=other)
     def __rdiv__(self, other): return divide(x1=other, x2=self)
+    def __rtruediv__(self, other): return divide(x1=other, x2=self)
 
     def __pow__ (self, other): return power(x=self, pow=other)
     def __rpow__(self, other): return power(x=other, pow=self)
-- 
2.43.0


From 1b46b27ed7d0d99b3cdb6e3db0ef91be1c6b95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 13/46] fix: x.transpose(1, 0) raised IndexError

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 98e26ca..3014547 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -564,7 +564,7 @@ class Ch(object):
         return transpose(self)
         
     def transpose(self, *axes):
-        return transpose(self, *axes)
+        return transpose(self, axes) if len(axes) > 1 else transpose(self, *axes)
         
     def squeeze(self, axis=None):
         return squeeze(self, axis)
-- 
2.43.0


From 588f12bed5e2f1d4bb31c250e7821be5b4426660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:22 +0000
Subject: [PATCH 14/46] fix: remove_redundancy() broke change propagation and
 merged variables

Replaced terms did not register their new parent, so later changes were missed;
and two variables built from one array were merged into one.
---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 3014547..b0e43b4 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -228,13 +228,13 @@ class Ch(object):
         for propname in list(self.dterms):
             prop = self.__dict__[propname]
 
-            if not hasattr(prop, 'dterms'):
-                continue
+            if not hasattr(prop, 'dterms') or prop.is_ch_baseclass():
+                continue # variables are never redundant, even if they share an array
             sid = prop.sid
             if sid not in cache:
                 cache[sid] = prop
             elif self.__dict__[propname] is not cache[sid]:
-                self.__dict__[propname] = cache[sid]
+                setattr(self, propname, cache[sid])
                 replacement_occurred = True
             if prop.remove_redundancy(cache, iterate=False):
                 replacement_occurred = True
-- 
2.43.0


From 114a6bae19588c8f80353d700c8da1124301418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 15/46] fix: set() could leave stale results

After set(a=.., label=..), nodes stayed tagged 9999 and the next such call skipped
clearing their caches.
---
 chumpy/ch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index b0e43b4..a6d5cff 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -11,6 +11,7 @@ __all__ = ['Ch', 'depends_on', 'MatVecMult', 'ChHandle', 'ChLambda']
 
 import os, sys, time
 import inspect
+import itertools
 import scipy.sparse as sp
 import numpy as np
 import numbers
@@ -34,6 +35,8 @@ def pif(msg):
     if DEBUG or VERBOSE:
         sys.stdout.write(msg + '\n')
 
+_set_counter = itertools.count(1)
+
 _props_for_dict = weakref.WeakKeyDictionary()
 def _props_for(cls):
     if cls not in _props_for_dict:
@@ -477,8 +480,10 @@ class Ch(object):
         # The complexity here comes because we wish to
         # avoid clearing cache redundantly
         if len(kwall) > 0:
+            # (the tag must be new: nodes still tagged by an earlier call would be skipped)
+            itr = -next(_set_counter)
             for k in kwall[:-1]:
-                self.__setattr__(k, kwargs[k], 9999)
+                self.__setattr__(k, kwargs[k], itr)
             self.__setattr__(kwall[-1], kwargs[kwall[-1]], None)
             
 
-- 
2.43.0


From 3e94aff41c1f2dc61aef58b4ff3bf2ad2794aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 16/46] fix: identity derivatives of atleast_nd, ChHandle and
 ChLambda were 1x1

---
 chumpy/ch.py         | 4 ++--
 chumpy/reordering.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a6d5cff..61f3426 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1242,7 +1242,7 @@ class ChHandle(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(wrt.size, wrt.size) if wrt.size > 1 else 1
     
 
 class ChLambda(Ch):
@@ -1282,7 +1282,7 @@ class ChLambda(Ch):
     
     def compute_dr_wrt(self, wrt):
         if wrt is self._result:
-            return 1
+            return sp.eye(wrt.size, wrt.size) if wrt.size > 1 else 1
 
 # ChGroup is similar to ChLambda in that it's designed to expose the "internal"
 # inputs of result but, unlike ChLambda, result is kept internal and called when
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 0ab1cd3..9f6af04 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -321,7 +321,7 @@ class AtleastNd(Ch):
         
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
-            return 1
+            return sp.eye(wrt.size, wrt.size) if wrt.size > 1 else 1
 
 def atleast_nd(ndims, *arys):
     arys = [AtleastNd(x=ary, ndims=ndims) for ary in arys]
-- 
2.43.0


From 2a9ca46c5dade4953101ea1ee9f711053ea9a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 17/46] fix: ChLambda/ChGroup arguments leaked into the class's
 terms

---
 chumpy/ch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 61f3426..e4621cb 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1265,7 +1265,7 @@ class ChLambda(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self.args = args
         self.add_dterm('_result', result)
@@ -1308,7 +1308,7 @@ class ChGroup(Ch):
             if result.is_dr_wrt(arg.x):
                 self.add_dterm(argname, arg.x)
             else:
-                self.terms.append(argname)
+                self.terms = list(self.terms) + [argname]
                 setattr(self, argname, arg.x)
         self._result = result
         
-- 
2.43.0


From 8c5054a9ba3375d3270ad9ef24e68a5d7d9d32a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 18/46] fix: elementwise derivatives for inputs of shape (1, n)

---
 chumpy/ch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 38cf786..14f433d 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -226,7 +226,7 @@ class UnaryElemwise(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.x:
             result = self._d(self.x.r)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result)
 
 
 class nan_to_num(UnaryElemwise):
@@ -303,7 +303,7 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
-            return sp.diags([result.ravel()], [0]) if len(result)>1 else np.atleast_2d(result)
+            return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result)
 
 class sum(Ch):
     dterms = 'x',
-- 
2.43.0


From 0289456a9c6426b8b30996d4d7c1ecfe6778551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 19/46] fix: derivative of mean() over all elements of a
 multidimensional array

---
 chumpy/ch_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 14f433d..701e9f3 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -357,7 +357,7 @@ class mean(Ch):
         if wrt is not self.x:
             return
         if self.axis == None:
-            return row(np.ones((1, len(self.x.r))))/len(self.x.r)
+            return row(np.ones((1, self.x.size)))/self.x.size
         else:
             uid = tuple(list(self.x.shape) + [self.axis])
             if uid not in self.dr_cache:
-- 
2.43.0


From 078a73eacacb96d760b9f7242a97497bdcacef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 20/46] fix: min/max derivatives for arrays with zero byte
 strides

e.g. amax(ch.array(x[:,None]), axis=0): length-1 axes may have any stride.
---
 chumpy/ch_ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 701e9f3..73602f9 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -648,9 +648,7 @@ class A_extremum(Ch):
             # np.amin here probably
             idxs = np.arange(mtx.size).reshape(mtx.shape)
             mn = np.amin(idxs, axis=axis)
-            mtx_strides = np.array(mtx.strides)
-            stride = mtx_strides / np.min(mtx_strides) # go from bytes to num elements
-            stride = stride[axis]
+            stride = np.prod(mtx.shape[axis:][1:]) # in elements, for a C-ordered array
         return mn, stride
 
 
-- 
2.43.0


From 174341f94bb1fac2d099266e63bb7caa3ad037bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 21/46] fix: derivatives of dot(a, b) when b has more than two
 dimensions

---
 chumpy/ch_ops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 73602f9..a385a39 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -732,7 +732,7 @@ class dot(Ch):
     def compute_d1(self):
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if ar.ndim <= 2:
             return sp.kron(sp.eye(ar.shape[0], ar.shape[0]),br.T)
@@ -743,12 +743,16 @@ class dot(Ch):
         
         # To stay consistent with numpy, we must upgrade 1D arrays to 2D
         ar = row(self.a.r) if len(self.a.r.shape)<2 else self.a.r.reshape((-1, self.a.r.shape[-1]))
-        br = col(self.b.r) if len(self.b.r.shape)<2 else self.b.r.reshape((self.b.r.shape[0], -1))
+        br = col(self.b.r) if len(self.b.r.shape)<2 else np.rollaxis(self.b.r, -2).reshape((self.b.r.shape[-2], -1))
 
         if br.ndim <= 1:
             return self.ar
         elif br.ndim <= 2:
-            return sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            result = sp.kron(ar, sp.eye(br.shape[1],br.shape[1]))
+            if len(self.b.r.shape) > 2: # columns go from the order of br to the order of b
+                order = np.rollaxis(np.arange(self.b.size).reshape(self.b.shape), -2).ravel()
+                result = sp.csc_matrix(result)[:, np.argsort(order)]
+            return result
         else:
             raise NotImplementedError
             
-- 
2.43.0


From e5ba5a4ce7da974f49e6aeb4959e004fe7c0e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 22/46] fix: derivatives of diag and diagflat

Off-diagonal zeros were given a derivative wrt the first element.
---
 chumpy/reordering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 9f6af04..6d67e5a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -46,11 +46,11 @@ class Reorder(Permute):
                 ashape = a.shape
                 key = self.unique_reorder_id()
                 if key not in self.dr_lookup or key is None:
-                    JS = self.reorder(np.arange(asz).reshape(ashape))
-                    IS = np.arange(JS.size)
+                    # Counted from 1, since 0 is the filler of functions such as diag
+                    JS = self.reorder(np.arange(1, asz+1).reshape(ashape)).ravel()
+                    IS = np.nonzero(JS)[0]
                     data = np.ones_like(IS)
-                    shape = JS.shape
-                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS.ravel())), shape=(self.r.size, wrt.r.size))
+                    self.dr_lookup[key] = sp.csc_matrix((data, (IS, JS[IS]-1)), shape=(self.r.size, wrt.r.size))
                 return self.dr_lookup[key]
                  
 class Sort(Reorder):
-- 
2.43.0


From ce1d89926e51ef9d2a0a67a672d90b7695b5f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 23/46] fix: derivative of sort was the identity

---
 chumpy/reordering.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 6d67e5a..ca4283d 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -60,6 +60,14 @@ class Sort(Reorder):
     def reorder(self, a): return np.sort(a, self.axis, self.kind, self.order)
     def unique_reorder_id(self): return None
 
+    def compute_dr_wrt(self, wrt):
+        if wrt is self.a:
+            a = self.a.r
+            order = np.argsort(a, self.axis, self.kind, self.order)
+            JS = np.take_along_axis(np.arange(a.size).reshape(a.shape), order, self.axis).ravel()
+            IS = np.arange(JS.size)
+            return sp.csc_matrix((np.ones(JS.size), (IS, JS)), shape=(self.r.size, wrt.r.size))
+
 def sort(a, axis=-1, kind='quicksort', order=None):
     return Sort(a=a, axis=axis, kind=kind, order=order)
     
-- 
2.43.0


From df13e56a4f9ba5ea0a5c42df5e45b2909411280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 24/46] fix: derivative of tile(a, 2) raised TypeError

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index ca4283d..8bcbeab 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -78,7 +78,7 @@ class Tile(Reorder):
     term_order = 'a', 'reps'
     
     def reorder(self, a): return np.tile(a, self.reps)
-    def unique_reorder_id(self): return (self.a.shape, tuple(self.reps))
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.reps)))
     
 def tile(A, reps):
     return Tile(a=A, reps=reps)
-- 
2.43.0


From fc47092441e011ab32c7d1a64033a1cdcf3af488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 25/46] fix: stale derivatives of roll and repeat after their
 input changed shape

---
 chumpy/reordering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 8bcbeab..04b1c92 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -110,7 +110,7 @@ class Repeat(Reorder):
     terms = 'repeats', 'axis'
     
     def reorder(self, a): return np.repeat(a, self.repeats, self.axis)
-    def unique_reorder_id(self): return (self.repeats, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.repeats)), self.axis)
 
 def repeat(a, repeats, axis=None):
     return Repeat(a=a, repeats=repeats, axis=axis)
@@ -155,7 +155,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From 0fb9ea0c03bd52d46c2e931da65a3d29011435d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 26/46] fix: concatenate kept stale terms, axis and derivatives

Replacing a term, changing the axis or the shape of a term was not noticed.
---
 chumpy/reordering.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 04b1c92..025f912 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -363,10 +363,18 @@ def flipud(m):
     return m[::-1,...]
     
 class Concatenate(Ch):
+    terms = 'axis',
 
     def on_changed(self, which):
-        if not hasattr(self, 'dr_cached'):
+        # What we cache below depends only on our terms' identities and shapes
+        terms = [getattr(self, s) for s in self.dterms]
+        layout = (self.axis, [id(t) for t in terms], [t.shape for t in terms])
+        if layout != getattr(self, '_layout', None):
+            self._layout = layout
+            self._our_terms = terms
             self.dr_cached = weakref.WeakKeyDictionary()
+            if hasattr(self, '_everything'):
+                del self._everything
             
     @property
     def our_terms(self):
-- 
2.43.0


From e84ef8e8d634d1e7a73199d9e537be5b6062a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 27/46] fix: hstack of 1-D arrays raised IndexError

---
 chumpy/reordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 025f912..4f87877 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -461,7 +461,8 @@ def concatenate(mtxs, axis=0, **kwargs):
     return result
     
 def hstack(mtxs, **kwargs):
-    return concatenate(mtxs, axis=1, **kwargs)
+    mtxs = list(mtxs)
+    return concatenate(mtxs, axis=1 if np.ndim(mtxs[0]) > 1 else 0, **kwargs)
 
 def vstack(mtxs, **kwargs):
     return concatenate([atleast_2d(m) for m in mtxs], axis=0, **kwargs)
-- 
2.43.0


From a2b0f48afcc06e89e986978a01b545c199d95507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 28/46] fix: minimizing over several selections of one variable
 corrupted it

With x0=[x[:2], x[2:]], evaluating the second selection cached x between two
assignments which share one tag, so the second one did not clear that cache.
---
 chumpy/optimization_internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 1043633..67e3d8b 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -75,8 +75,10 @@ class ChInputsStacked(ch.Ch):
         _giter += 1
         if 'x' in which:
             pos = 0
-            for idx, freevar in enumerate(self.free_variables):
-                sz = freevar.r.size
+            # No "r" may be evaluated between the assignments below: they share one tag, so
+            # what a selection caches would not be cleared by later changes to its variable
+            sizes = [freevar.r.size for freevar in self.free_variables]
+            for idx, sz in enumerate(sizes):
                 rng = np.arange(pos, pos+sz)
                 if isinstance(self.free_variables[idx], ch.Select):
                     # Deal with nested selects
-- 
2.43.0


From 2d231140511d09b3d07a1c6f5f0ecffbf11b966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 29/46] fix: dogleg never returned once a step gave a NaN
 residual

The step was rejected but the trust region was not reduced, so it was tried forever.
---
 chumpy/optimization_internal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 67e3d8b..8ea09ca 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -353,7 +353,7 @@ class DoglegState(object):
     def updateRadius(self, rho, lb=.05, ub=.9):
         if rho > ub:
             self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))
-        elif rho < lb:
+        elif not rho >= lb: # including NaN
             self.delta *= .25
 
 
@@ -446,7 +446,7 @@ def minimize_dogleg(obj, free_variables, on_step=None,
                     obj.on_changed('x') # copies from flat vector to free variables
                 # update our trust region
                 state.updateRadius(trial.rho)
-                if state.delta <= e_2*np.linalg.norm(state.p):
+                if not state.delta > e_2*np.linalg.norm(state.p): # including NaN
                     stop('stopping because trust region is too small')
             if state.done or trial.is_improvement or (obj.fevals >= max_fevals):
                 break
-- 
2.43.0


From 0b2fbd81e4557508311fae35ee18aa0dd45d8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 30/46] fix: Newton-CG and trust-region methods raised
 NameError

ns_jacfunc() calls hstack(), which was not imported.
---
 chumpy/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4f68b65..5dafc8f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -13,7 +13,7 @@ from . import ch
 import scipy.sparse as sp
 import scipy.optimize
 
-from .optimization_internal import minimize_dogleg
+from .optimization_internal import minimize_dogleg, hstack
 
 #from memory_profiler import profile, memory_usage
 
-- 
2.43.0


From ce68cd6ddb6cf49b4b78848addfcc3bb2b633fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:15 +0000
Subject: [PATCH 31/46] fix: hess() replaced the Hessian without recording
 where it was computed

hessp(v1), hess(v2), hess(v1) returned the Hessian at v2.
---
 chumpy/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 5dafc8f..45c6a3f 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -78,6 +78,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if np.max(np.abs(vs-hessp.vs)) > 0:
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
+                    hessp.vs = vs
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
-- 
2.43.0


From 391eb2808b3ae9abd45f8b7aee51037f46b67f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:33 +0000
Subject: [PATCH 32/46] fix: x*x could not be copied or pickled

On unpickling, the second of two dterms holding one object is not registered with it yet.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index e4621cb..ad21ec7 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -389,7 +389,7 @@ class Ch(object):
             if hasattr(self, name):
                 term = getattr(self, name)
                 if self in term._parents:
-                    term._parents[self]['varnames'].remove(name)
+                    term._parents[self]['varnames'].discard(name)
                     if len(term._parents[self]['varnames']) == 0:
                         del term._parents[self]
                     
-- 
2.43.0


From ba70e3361544cbfbe8aa1dcb19f8cc60d0990e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:44 +0000
Subject: [PATCH 33/46] fix: ChGroup counted derivatives through its arguments
 twice

---
 chumpy/ch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index ad21ec7..6bdae98 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1316,7 +1316,15 @@ class ChGroup(Ch):
         return self._result.r
        
     def compute_dr_wrt(self, wrt):
-        return self._result.dr_wrt(wrt)
+        # Differentiate wrt the handles: whatever lies below the arguments is
+        # added by the chain rule, and must not be counted here as well.
+        handles = [arg for arg in self.args.values() if arg.x is wrt]
+        if handles:
+            drs = [self._result.dr_wrt(arg) for arg in handles]
+            drs = [dr for dr in drs if dr is not None]
+            return reduce(lambda x, y: x+y, drs) if drs else None
+        if not any([arg.is_dr_wrt(wrt) for arg in self.args.values()]):
+            return self._result.dr_wrt(wrt)
 
 from .ch_ops import *
 from .ch_ops import __all__ as all_ch_ops
-- 
2.43.0


From c669ded02e415a7d75d02e615a4c8656e2e0364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:42 +0000
Subject: [PATCH 34/46] fix: scipy callbacks ignored parameter vectors
 containing NaN, and failed at 1e16

---
 chumpy/optimization.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 45c6a3f..4d05504 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -59,9 +59,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
     
         def hessp(vs, p,obj, obj_scalar, free_variables):
             changevars(vs,obj,obj_scalar,free_variables)
-            if not hasattr(hessp, 'vs'):
-                hessp.vs = vs*0+1e16
-            if np.max(np.abs(vs-hessp.vs)) > 0:
+            if not hasattr(hessp, 'vs') or not np.array_equal(vs, hessp.vs):
 
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
@@ -73,9 +71,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         if method.lower() != 'newton-cg':
             def hess(vs, obj, obj_scalar, free_variables):
                 changevars(vs,obj,obj_scalar,free_variables)
-                if not hasattr(hessp, 'vs'):
-                    hessp.vs = vs*0+1e16
-                if np.max(np.abs(vs-hessp.vs)) > 0:
+                if not hasattr(hessp, 'vs') or not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
                     hessp.vs = vs
@@ -87,7 +83,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         for idx, freevar in enumerate(free_variables):
             sz = freevar.r.size
             newvals = vs[cur:cur+sz].copy().reshape(free_variables[idx].shape)
-            if np.max(np.abs(newvals-free_variables[idx]).ravel()) > 0:
+            if not np.array_equal(newvals, free_variables[idx].r):
                 free_variables[idx][:] = newvals
                 changed = True
 
@@ -105,9 +101,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         return residuals
 
     def scalar_jacfunc(vs,obj, obj_scalar, free_variables):
-        if not hasattr(scalar_jacfunc, 'vs'):
-            scalar_jacfunc.vs = vs*0+1e16
-        if np.max(np.abs(vs-scalar_jacfunc.vs)) == 0:
+        if hasattr(scalar_jacfunc, 'vs') and np.array_equal(vs, scalar_jacfunc.vs):
             return scalar_jacfunc.J
             
         changevars(vs, obj, obj_scalar, free_variables)
@@ -126,9 +120,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
-        if not hasattr(ns_jacfunc, 'vs'):
-            ns_jacfunc.vs = vs*0+1e16
-        if np.max(np.abs(vs-ns_jacfunc.vs)) == 0:
+        if hasattr(ns_jacfunc, 'vs') and np.array_equal(vs, ns_jacfunc.vs):
             return ns_jacfunc.J
             
         changevars(vs, obj, obj_scalar, free_variables)
-- 
2.43.0


From 9abce7ef971cef7da108aaf153867f38c7a6233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 35/46] fix: replacing x by an expression of x made shared
 subexpressions cyclic

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 6bdae98..bd68390 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -462,7 +462,7 @@ class Ch(object):
             term = getattr(self, term_name)
             if term is old:
                 setattr(self, term_name, new)
-            elif hasattr(term, 'dterms'):
+            elif term is not new and hasattr(term, 'dterms'):
                 term.replace(old, new)
         return new
   
-- 
2.43.0


From 22153e31aaa97b13910248ac7c80b895992b4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:48 +0000
Subject: [PATCH 36/46] fix: assigning through a view of a one-element variable
 failed

The product of a sparse selection matrix with a one-element vector was a
sparse matrix instead of a vector.
---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index bd68390..aa3114e 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -538,7 +538,7 @@ class Ch(object):
 
             # Flat positions (counted from 1) in "inner" of the entries being assigned
             sel = self[key]
-            idxs = sel._superdot(sel.dr_wrt(inner), np.arange(1., inner.size+1.))
+            idxs = sel.dr_wrt(inner).dot(np.arange(1., inner.size+1.))
             idxs = np.asarray(idxs).ravel().astype(np.int64) - 1
 
             newvals = np.empty(sel.shape)
-- 
2.43.0


From a543d01b213e8d2115309d76e6bd0041daf1514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 37/46] fix: a class could be taken for an earlier, discarded
 one when preparing its terms

---
 chumpy/ch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index aa3114e..6943372 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -76,7 +76,7 @@ class Ch(object):
     dterms = ['x']
     __array_priority__ = 2.0
     _cached_parms = {}
-    _setup_terms = {}
+    _setup_terms = weakref.WeakKeyDictionary()
     _default_kwargs = {'make_dense' : False, 'make_sparse' : False}
     _status = "undefined"
     
@@ -146,7 +146,7 @@ class Ch(object):
 
     @classmethod
     def setup_terms(cls):
-        if id(cls) in cls._setup_terms: return
+        if cls in cls._setup_terms: return
 
         if cls == Ch:
             return
@@ -174,7 +174,7 @@ class Ch(object):
                 cls.term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
-        cls._setup_terms[id(cls)] = True
+        cls._setup_terms[cls] = True
 
 
     ########################################################
-- 
2.43.0


From b38eceefa875bb8db58ac022a2084b3484046324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 38/46] fix: positional arguments of a subclass were bound in
 its base class's order once that had been used

---
 chumpy/ch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 6943372..a289d30 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -170,8 +170,9 @@ class Ch(object):
             cls.dterms = [t.name for t in parm_declarations if t.dr]
             cls.terms = [t.name for t in parm_declarations if not t.dr]
         else:
-            if not hasattr(cls, 'term_order'):
-                cls.term_order = list(cls.terms) + list(cls.dterms)
+            # An order that was only defaulted for a base class is not inherited
+            if not any('term_order' in c.__dict__ and c.__dict__['term_order'] is not c.__dict__.get('_default_term_order') for c in cls.__mro__):
+                cls.term_order = cls._default_term_order = list(cls.terms) + list(cls.dterms)
 
         _check_kw_conflict(cls)
         cls._setup_terms[cls] = True
-- 
2.43.0


From 7f6ccf1c9b91ea97385ac64ed7b29fc8a073b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 39/46] fix: subclasses of NanDivide, transpose, rollaxis,
 Concatenate and ChLambda recursed endlessly

---
 chumpy/ch.py         | 2 +-
 chumpy/ch_ops.py     | 4 ++--
 chumpy/reordering.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a289d30..6b16f51 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1275,7 +1275,7 @@ class ChLambda(Ch):
         # Have to get rid of lambda for serialization
         if hasattr(self, 'lmb'):
             self.lmb = None
-        return super(self.__class__, self).__getstate__()
+        return super(ChLambda, self).__getstate__()
         
         
     def compute_r(self):
diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index a385a39..0407c25 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -425,7 +425,7 @@ class NanDivide(divide):
     def compute_r(self):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            result = super(self.__class__, self).compute_r()
+            result = super(NanDivide, self).compute_r()
         shape = result.shape
         result = result.ravel()
         result[np.isinf(result)] = 0
@@ -435,7 +435,7 @@ class NanDivide(divide):
     def compute_dr_wrt(self, wrt):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            result = super(self.__class__, self).compute_dr_wrt(wrt)        
+            result = super(NanDivide, self).compute_dr_wrt(wrt)        
         if result is not None:
             result = result.copy()
             if sp.issparse(result):
diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 4f87877..4a91c4a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -125,7 +125,7 @@ class transpose(Reorder):
     def on_changed(self, which):
         if not hasattr(self, 'axes'):
             self.axes = None
-        super(self.__class__, self).on_changed(which)
+        super(transpose, self).on_changed(which)
     
 class rollaxis(Reorder):        
     dterms = 'a'
@@ -137,7 +137,7 @@ class rollaxis(Reorder):
     def on_changed(self, which):
         if not hasattr(self, 'start'):
             self.start = 0
-        super(self.__class__, self).on_changed(which)
+        super(rollaxis, self).on_changed(which)
 
 class swapaxes(Reorder):        
     dterms = 'a'
@@ -386,7 +386,7 @@ class Concatenate(Ch):
         # Have to get rid of WeakKeyDictionaries for serialization
         if hasattr(self, 'dr_cached'):
             del self.dr_cached
-        return super(self.__class__, self).__getstate__()
+        return super(Concatenate, self).__getstate__()
     
     def compute_r(self):
         return np.concatenate([t.r for t in self.our_terms], axis=self.axis)
-- 
2.43.0


From 480697498cfa77515d9ef04b2f7b07ccbe26d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:24 +0000
Subject: [PATCH 40/46] fix: copying or pickling a function-style expression
 discarded the original's function

---
 chumpy/ch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index 6b16f51..a8eb6df 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -1273,9 +1273,10 @@ class ChLambda(Ch):
         
     def __getstate__(self):
         # Have to get rid of lambda for serialization
-        if hasattr(self, 'lmb'):
-            self.lmb = None
-        return super(ChLambda, self).__getstate__()
+        result = super(ChLambda, self).__getstate__()
+        if 'lmb' in result:
+            result['lmb'] = None
+        return result
         
         
     def compute_r(self):
-- 
2.43.0


From d39aa8e28a544b412ad4456587cf989be9ecda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:58 +0000
Subject: [PATCH 41/46] fix: derivative of roll with several shifts or axes

---
 chumpy/reordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 4a91c4a..45ced4a 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -155,7 +155,7 @@ class Roll(Reorder):
     term_order = 'a', 'shift', 'axis'
     
     def reorder(self, a): return np.roll(a, self.shift, self.axis)
-    def unique_reorder_id(self): return (self.a.shape, self.shift, self.axis)
+    def unique_reorder_id(self): return (self.a.shape, tuple(np.atleast_1d(self.shift)), tuple(np.atleast_1d(self.axis)))
     
 def roll(a, shift, axis=None):
     return Roll(a, shift, axis)
-- 
2.43.0


From c49f8fa26b40169f06509b6fc556446cf4a0683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 42/46] fix: derivative of a concatenation without axis

---
 chumpy/reordering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/reordering.py b/chumpy/reordering.py
index 45ced4a..863ca2b 100644
--- a/chumpy/reordering.py
+++ b/chumpy/reordering.py
@@ -450,6 +450,9 @@ def expand_concatenates(mtxs, axis=0):
 
 def concatenate(mtxs, axis=0, **kwargs):
 
+    if axis is None: # like numpy, flatten first
+        mtxs, axis = [ravel(m) for m in mtxs], 0
+
     mtxs = expand_concatenates(mtxs, axis)
 
     result = Concatenate(**kwargs)
-- 
2.43.0


From 9896185552d673cbd00eecb25a2973e1cdb2e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:45 +0000
Subject: [PATCH 43/46] fix: free selections of a variable holding integers or
 a list (values were truncated, or an exception raised)

---
 chumpy/optimization_internal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chumpy/optimization_internal.py b/chumpy/optimization_internal.py
index 8ea09ca..4af23c8 100644
--- a/chumpy/optimization_internal.py
+++ b/chumpy/optimization_internal.py
@@ -87,16 +87,16 @@ class ChInputsStacked(ch.Ch):
                     while isinstance(a, ch.Select):
                         selects.append(a.idxs)
                         a = a.a
-                    newv = a.x.copy()
+                    newv = np.array(np.atleast_1d(a.x), dtype=np.float64, order='C')
                     idxs = selects.pop()
                     while len(selects) > 0:
                         idxs = idxs[selects.pop()]
                     newv.ravel()[idxs] = self.x.r.ravel()[rng]
                     a.__setattr__('x', newv, _giter)
-                elif isinstance(self.free_variables[idx].x, np.ndarray):
-                    self.free_variables[idx].__setattr__('x', self.x.r[rng].copy().reshape(self.free_variables[idx].x.shape), _giter)
-                else: # a number
-                    self.free_variables[idx].__setattr__('x', self.x.r[rng], _giter)
+                else:
+                    # (x may be a number, a list or an array of any type)
+                    shape = np.shape(self.free_variables[idx].x)
+                    self.free_variables[idx].__setattr__('x', self.x.r[rng].copy().reshape(shape), _giter)
                 pos += sz
 
     @property
-- 
2.43.0


From 7e804937228c1860b2d509f3e857e846ce7b7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:46 +0000
Subject: [PATCH 44/46] fix: derivative of clip when the limits broadcast the
 input to a larger shape

---
 chumpy/ch_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chumpy/ch_ops.py b/chumpy/ch_ops.py
index 0407c25..8d6dcda 100755
--- a/chumpy/ch_ops.py
+++ b/chumpy/ch_ops.py
@@ -303,6 +303,9 @@ class clip(Ch):
     def compute_dr_wrt(self, wrt):
         if wrt is self.a:
             result = np.asarray((self.r != self.a_min) & (self.r != self.a_max), np.float64)
+            if result.shape != self.a.shape: # "a" was broadcast against the limits
+                JS = np.broadcast_to(np.arange(self.a.size).reshape(self.a.shape), result.shape).ravel()
+                return sp.csc_matrix((result.ravel(), (np.arange(JS.size), JS)), shape=(result.size, self.a.size))
             return sp.diags([result.ravel()], [0]) if result.size>1 else np.atleast_2d(result)
 
 class sum(Ch):
-- 
2.43.0


From e736ae55083457c73a3770bd6c2c63264de98ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 45/46] fix: remove_redundancy of objects with an input that is
 not given (KeyError)

---
 chumpy/ch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chumpy/ch.py b/chumpy/ch.py
index a8eb6df..e7d7f89 100644
--- a/chumpy/ch.py
+++ b/chumpy/ch.py
@@ -229,7 +229,7 @@ class Ch(object):
             _ = self.r # may result in the creation of extra dterms that we can cull
             
         replacement_occurred = False
-        for propname in list(self.dterms):
+        for propname in [t for t in self.dterms if t in self.__dict__]:
             prop = self.__dict__[propname]
 
             if not hasattr(prop, 'dterms') or prop.is_ch_baseclass():
-- 
2.43.0


From 04722cec81fe91cb65d23da41af152b94791ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 46/46] fix: Hessian products were stale when the solver
 updates its vector in place (Newton-CG)

---
 chumpy/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chumpy/optimization.py b/chumpy/optimization.py
index 4d05504..297b9d3 100755
--- a/chumpy/optimization.py
+++ b/chumpy/optimization.py
@@ -64,7 +64,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                 hessp.J = J
                 hessp.H = 2. * J.T.dot(J)
-                hessp.vs = vs
+                hessp.vs = np.array(vs)
             return np.array(hessp.H.dot(p)).ravel()
             #return 2*np.array(hessp.J.T.dot(hessp.J.dot(p))).ravel()
             
@@ -74,7 +74,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
                 if not hasattr(hessp, 'vs') or not np.array_equal(vs, hessp.vs):
                     J = ns_jacfunc(vs,obj,obj_scalar,free_variables)
                     hessp.H = 2. * J.T.dot(J)
-                    hessp.vs = vs
+                    hessp.vs = np.array(vs)
                 return hessp.H
         
     def changevars(vs, obj, obj_scalar, free_variables):
@@ -116,7 +116,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
             result = np.concatenate([jac.ravel() for jac in jacs])
 
         scalar_jacfunc.J = result
-        scalar_jacfunc.vs = vs
+        scalar_jacfunc.vs = np.array(vs)
         return result.ravel()
         
     def ns_jacfunc(vs,obj, obj_scalar, free_variables):
@@ -128,7 +128,7 @@ def minimize(fun, x0, method='dogleg', bounds=None, constraints=(), tol=None, ca
         result = hstack(jacs)
 
         ns_jacfunc.J = result
-        ns_jacfunc.vs = vs
+        ns_jacfunc.vs = np.array(vs)
         return result
 
         
-- 
2.43.0

