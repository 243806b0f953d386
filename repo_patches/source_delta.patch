From ede285b9322702c5b73105af300b3068bb6a94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 01/51] fix: Linear reports its gradient per parameter entry
 and a zero Hessian

The gradient and Hessian kept spurious value axes, so a Linear function
could not be used as a regularization or inside a Sum.
---
 maxlike/func/func.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..a9d39d6 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,17 +13,14 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for w, p in zip(self.weights, params))))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(params[i]),
+                           params, i, True).sum()
 
-    def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+    hess = null_func
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From a209aa6100bd9d79f78019b5daae27d9904fe2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 02/51] fix: ArcTan and Log derivatives accept Param objects

---
 maxlike/func/func.py    | 2 +-
 maxlike/func/sigmoid.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index a9d39d6..5cdb6f9 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -122,7 +122,7 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = 1 / Tensor(params[0])
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..5e06494 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -42,10 +42,10 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = params[0]
+        x = np.asarray(params[0])
         return grad_tensor(1 / (1 + x * x), params, i, True)
 
     def hess(self, params, i, j):
-        x = params[0]
+        x = np.asarray(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
                            params, i, j, True, True)
-- 
2.43.0


From 54d1e1beb284782e1c152148478abe83f94fc81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 03/51] fix: X, Logistic and ArcTan derivatives keep the
 outcome axes of a Tensor argument

---
 maxlike/func/func.py    |  3 ++-
 maxlike/func/sigmoid.py | 24 ++++++++++++------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 5cdb6f9..dc75b5d 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -54,7 +54,8 @@ class X(Func):
         return Tensor(params[0])
 
     def grad(self, params, i):
-        return grad_tensor(np.ones_like(params[0]), params, i, True)
+        return grad_tensor(np.ones_like(params[0]), params, i, True,
+                           dim=Tensor(params[0]).dim)
 
     hess = null_func
 
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index 5e06494..d38142a 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -19,20 +19,20 @@ class Logistic(Func):
         return Tensor(expit(params[0]))
 
     def grad(self, params, i):
-        f = expit(params[0])
-        return grad_tensor(f * (1 - f), params, i, True)
+        f = Tensor(expit(params[0]))
+        return grad_tensor(f * (1 - f), params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
-        f = expit(params[0])
+        f = Tensor(expit(params[0]))
         return hess_tensor(f * (1 - f) * (1 - 2 * f),
-                           params, i, j, True, True)
+                           params, i, j, True, True, dim=f.dim)
 
     def eval(self, params):
-        f = expit(params[0])
-        return Tensor(f), \
-               [grad_tensor(f * (1 - f), params, 0, True)], \
+        f = Tensor(expit(params[0]))
+        return f, \
+               [grad_tensor(f * (1 - f), params, 0, True, dim=f.dim)], \
                [[hess_tensor(f * (1 - f) * (1 - 2 * f),
-                             params, 0, 0, True, True)]]
+                             params, 0, 0, True, True, dim=f.dim)]]
 
 
 class ArcTan(Func):
@@ -42,10 +42,10 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = np.asarray(params[0])
-        return grad_tensor(1 / (1 + x * x), params, i, True)
+        x = Tensor(params[0])
+        return grad_tensor(1 / (1 + x * x), params, i, True, dim=x.dim)
 
     def hess(self, params, i, j):
-        x = np.asarray(params[0])
+        x = Tensor(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
-                           params, i, j, True, True)
+                           params, i, j, True, True, dim=x.dim)
-- 
2.43.0


From 0a3599265eefbb7f27fe3b6f25e7b55bc47531cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 04/51] fix: the tennis Set function accepts Param objects

---
 maxlike/func/tennis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..a0e9cc9 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -103,7 +103,7 @@ class Set(Func):
     """
 
     def __call__(self, params):
-        p, t = params
+        p, t = map(np.asarray, params)
         p = np.minimum(p, 1 - 1e-10)
         p = np.maximum(p, 1e-10)
         q = 1 - p
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From 3000b10c67fc1fe0b358431784fcaeb039f12460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 05/51] fix: CollapseMatrix uses the conditions it is given

---
 maxlike/func/matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..25b2e35 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -14,11 +14,14 @@ class CollapseMatrix(Func):
         sgn(A*x + B*y + C) == s
         """
         if conditions is None:
-            self.conditions = [
+            conditions = [
                 (1, -1, 0, 1),
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif np.ndim(conditions) == 1:
+            conditions = [conditions]
+        self.conditions = conditions
 
     def __call__(self, params):
         """
-- 
2.43.0


From 8fbd5d5e68253a2cec462af1b2dd3a0bb02f5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 06/51] fix: CollapseMatrix gradient keeps the order of three
 or more feature axes

---
 maxlike/func/matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 25b2e35..86b4ef5 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -50,8 +50,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, (x_dim - 2, x_dim - 1), (0, 1))
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From c6418ad897ce4be20bd159e12d25d06b66c95baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 07/51] fix: Markov models accept Param objects

---
 maxlike/func/matrix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 86b4ef5..2c5b908 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -68,8 +68,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -101,8 +101,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -182,8 +182,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -212,8 +212,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
-- 
2.43.0


From a9e68a20b191261aaee8e2cab888ab5f2992535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 08/51] fix: MarkovMatrix mixed second derivative with a
 non-constant skew table

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 2c5b908..5da8b28 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -139,7 +139,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From dd4da484734977695bd9bb8dcc69cff410cfb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 09/51] fix: Tensor.sum keeps the outcome axes that are not
 summed

---
 maxlike/tensor/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..ade657e 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -486,9 +486,11 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
+            dim = self.dim
             if sum_dim is True:
                 val = val.sum(tuple(p + self.n + np.arange(self.dim)))
-            return Tensor(val, self.x_dim, self.y_dim, 0,
+                dim = 0
+            return Tensor(val, self.x_dim, self.y_dim, dim,
                           self.x_map, self.y_map)
 
         if sum_val is True:
-- 
2.43.0


From 3c872c237f3bc8f16fdb87cd5b3ec89f3bf4f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 10/51] fix: Tensor.sum over some of the features keeps the
 remaining mappings

---
 maxlike/tensor/tensor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index ade657e..b23f17c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -533,7 +533,16 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # mappings to the features that were not summed
+        where = [-1 if k in sum_val else
+                 k - len([l for l in sum_val if l < k])
+                 for k in range(self.n + self.dim)]
+        x_map = compose_mappings(where, self.x_map)
+        y_map = compose_mappings(where, self.y_map)
+
+        return Tensor(val, self.x_dim, self.y_dim, dim,
+                      x_map if max(x_map or [-1]) >= 0 else None,
+                      y_map if max(y_map or [-1]) >= 0 else None)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 6013733532d0aa57c996d6b539d5fe31482182c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 11/51] fix: GenericTensor.sum over some of the features sums
 them and keeps the outcome axes

---
 maxlike/tensor/tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index b23f17c..a9fbcac 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -262,6 +262,7 @@ class GenericTensor(BaseTensor):
             el_sizes[k] = np.array(shape).prod()
 
         size = shape_n.prod()
+        dim = 0 if sum_dim is True else self.dim
 
         if sum_val is True:
             values = 0
@@ -273,13 +274,13 @@ class GenericTensor(BaseTensor):
                 values = values + el.sum(sum_val, sum_dim).\
                     values[tuple(idx)] * (size / el_size)
 
-            dim = 0 if sum_dim is True else self.dim
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        n = self.n if sum_val is False else self.n - len(np.ravel(sum_val))
+        return GenericTensor(self.x_dim, self.y_dim, n, dim, new_elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
-- 
2.43.0


From fc1c4a57b1049b9e1539819426c38920673e9ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 12/51] fix: a placed component's ValueError is not reported as
 a zero derivative

---
 maxlike/func/func_op.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..d299233 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,9 +52,9 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
+                    if i in obj.param_map:
                         grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
+                    else:
                         grad.append(Tensor(0))
                 return val, grad, hess
 
@@ -69,21 +69,19 @@ class FuncWrap(Func):
         return self._expand(self.foo(self.param_map(params)))
 
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
+        if i not in self.param_map:
             return Tensor(0)
+        return self._expand(
+            self.foo.grad(self.param_map(params),
+                          self.param_map.index(i)))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
+        if i not in self.param_map or j not in self.param_map:
             return Tensor(0)
+        return self._expand(
+            self.foo.hess(self.param_map(params),
+                          self.param_map.index(i),
+                          self.param_map.index(j)))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
@@ -91,7 +89,7 @@ class FuncWrap(Func):
         grad, hess = [], []
         idx_list = []
         for i in range(len(params)):
-            try:
+            if i in self.param_map:
                 idx = self.param_map.index(i)
                 grad.append(self._expand(foo_grad[idx]))
                 hess_line = []
@@ -102,7 +100,7 @@ class FuncWrap(Func):
                         self._expand(foo_hess[idx][jdx]))
                 hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
                 hess.append(hess_line)
-            except ValueError:
+            else:
                 idx = None
                 grad.append(Tensor(0))
                 hess.append([Tensor(0)] * (i + 1))
-- 
2.43.0


From 14dde6fa6aab41ec5b6fa5369ce1a8504cc40bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 13/51] fix: FuncWrap Hessians when the parameters are listed
 in another order

---
 maxlike/func/func_op.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index d299233..8a9acda 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -78,10 +78,14 @@ class FuncWrap(Func):
     def hess(self, params, i, j):
         if i not in self.param_map or j not in self.param_map:
             return Tensor(0)
+        idx = self.param_map.index(i)
+        jdx = self.param_map.index(j)
+        if idx < jdx:
+            # components report the lower triangle
+            return self._expand(
+                self.foo.hess(self.param_map(params), jdx, idx).transpose())
         return self._expand(
-            self.foo.hess(self.param_map(params),
-                          self.param_map.index(i),
-                          self.param_map.index(j)))
+            self.foo.hess(self.param_map(params), idx, jdx))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
@@ -95,9 +99,13 @@ class FuncWrap(Func):
                 hess_line = []
                 for j in range(i):
                     jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
+                    if jdx is None:
+                        hess_line.append(Tensor(0))
+                    elif idx < jdx:
+                        hess_line.append(
+                            self._expand(foo_hess[jdx][idx].transpose()))
+                    else:
+                        hess_line.append(self._expand(foo_hess[idx][jdx]))
                 hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
                 hess.append(hess_line)
             else:
-- 
2.43.0


From 8349cee4586cb9f1141350f1d27e6f3bf9535145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 14/51] fix: Sum.eval includes the offset of the sum

---
 maxlike/func/func_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 8a9acda..2332869 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -213,7 +213,7 @@ class Sum(Func):
 
     def eval(self, params):
         n = len(params)
-        val = Tensor(0)
+        val = Tensor(self.b)
         grad = [Tensor(0)] * n
         hess = [[Tensor(0)] * (i + 1) for i in range(n)]
         for w, atom in self.atoms:
-- 
2.43.0


From f1ca6f6e8596d0e8a5bcd6b1770b97f6051b6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 15/51] fix: Sum.add applies the weight to the offset of an
 added function

---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 2332869..e87f180 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -183,10 +183,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
-- 
2.43.0


From 95df2821800a1a9c74f15cd9d92293ee7ec3222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 16/51] fix: derivatives known to be zero are listed per
 parameter like any other

---
 maxlike/func/func_base.py | 15 +++++++++------
 maxlike/func/func_op.py   |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..cb21558 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,11 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_grad(obj):
+    return MethodType(vector_wrap(null_func), obj)
+
+def null_hess(obj):
+    return MethodType(matrix_wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +211,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +258,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_grad(self)
+            self.hess = null_hess(self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index e87f180..495b945 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull
 from six.moves import reduce
 from types import MethodType
 
@@ -42,7 +42,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -58,7 +58,7 @@ class FuncWrap(Func):
                         grad.append(Tensor(0))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 1545c26b154a888d58100ce06d0ce763f666e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 17/51] fix: FuncWrap and Compose evaluate a bare parameter for
 linear functions

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index cb21558..b201daa 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -283,7 +283,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 495b945..a279621 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,6 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_grad, null_hess, isnull
+from .func_base import Func, Affine, null_grad, null_hess, isnull, \
+    eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -59,7 +60,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_hess(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 3fb1ca0ab676f3b410563f2b879af59499498365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 18/51] fix: evaluating a constant function of other functions

---
 maxlike/func/func_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index b201daa..c59c236 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -258,8 +258,15 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
+            def eval(obj, params):
+                n = len(params)
+                return obj(params), \
+                       [Tensor(0)] * n, \
+                       [[Tensor(0)] * (i + 1) for i in range(n)]
+
             self.grad = null_grad(self)
             self.hess = null_hess(self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
-- 
2.43.0


From 6ab1437a509f13ffd179f20ea0e16512674605dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 19/51] fix: Tensor.transpose with derivative groups of more
 than one axis

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index a9fbcac..b2f1c88 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -629,8 +629,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 3ee9ac5443d49cfaad1ea9bc4fd05d90949fecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 20/51] fix: model functions can be divided by a number

---
 maxlike/func/func_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index c59c236..506ec43 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -196,9 +196,11 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
+    __div__ = __truediv__
+
     def __matmul__(self, other):
         return Compose(self, other)
 
-- 
2.43.0


From 0494ace02ca07d6172e11507174ae85ae48fc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 21/51] fix: chain rule for a mapped inner Hessian under an
 outer function that reads all of it

---
 maxlike/tensor/tensor.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index b2f1c88..9e9afbd 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -81,20 +81,22 @@ def arr_expand_cross_diag(arr, p, map1, map2):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
+def arr_swapaxes_cross(arr, q, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
+        if f < 0:
+            continue
+        if f in map1:
+            # the axis was already moved by map1
+            l = map1.index(f)
+            n = arr.shape[l]
+            idx[l] = n
+            idx[q + k] = n
+            arr = arr * np.eye(n).reshape(idx)
+            idx[l] = 1
+            idx[q + k] = 1
         else:
-            arr = arr.swapaxes(p + k, p + f)
+            arr = arr.swapaxes(q + k, p + f)
     return arr
 
 
@@ -765,11 +767,13 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
         if not self.x_map:
             val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
+            val = arr_swapaxes_cross(val, other.x_dim, p,
                                      other.x_map, other.y_map)
-
-        x_map = compose_mappings(self.x_map, other.x_map)
-        y_map = compose_mappings(self.x_map, other.y_map)
+            x_map = array('b')
+            y_map = array('b')
+        else:
+            x_map = compose_mappings(self.x_map, other.x_map)
+            y_map = compose_mappings(self.x_map, other.y_map)
         val = val.sum(tuple(p + np.arange(other.n)))
         return Tensor(val,
                       x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
-- 
2.43.0


From 0d2033df6e216b96d1fac5a60ce3c38dac3e5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 22/51] fix: chain rule for inner derivatives mapped to axes
 the outer function sums over

---
 maxlike/tensor/tensor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 9e9afbd..49bf7f2 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -36,6 +36,16 @@ def compose_mappings(map1, map2):
     ])
 
 
+def remaining_mappings(map1, map2):
+    """
+    mappings of map2 to axes that are not mapped any further by map1
+    """
+    return array('b', [
+        f if f >= 0 and (not map1 or map1[f] < 0) else -1
+        for f in map2
+    ])
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -718,7 +728,8 @@ class Tensor(BaseTensor):
             x_map = compose_mappings(self.x_map, other.x_map)
         else:
             x_map = array('b')
-            val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
+        val = arr_swapaxes(val, 0, other.x_dim,
+                           remaining_mappings(self.x_map, other.x_map))
 
         val = val.sum(tuple(other.x_dim + np.arange(other.n)))
         return Tensor(val, x_dim=other.x_dim, y_dim=self.y_dim, dim=dim,
@@ -765,10 +776,11 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
+        x_map = remaining_mappings(self.x_map, other.x_map)
+        y_map = remaining_mappings(self.x_map, other.y_map)
+        val = arr_swapaxes(val, 0, p, x_map)
+        val = arr_swapaxes_cross(val, other.x_dim, p, x_map, y_map)
         if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim, p,
-                                     other.x_map, other.y_map)
             x_map = array('b')
             y_map = array('b')
         else:
-- 
2.43.0


From 717f2799bb2b09f0a64f704416e0da366509da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 23/51] fix: Finite sums broadcast derivatives over every
 outcome

---
 maxlike/maxlike.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..10225da 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,5 +1,6 @@
 import numpy as np
 from .maxlike_base import MaxLike
+from .tensor import Tensor
 from scipy.special import gammaln
 
 
@@ -133,20 +134,24 @@ class Finite(MaxLike):
         """
         grad = []
         z = y.sum(False)
+        # the derivatives may be broadcasted along the outcomes
+        one = Tensor(np.ones_like(y), dim=y.dim)
         for d in der:
-            dz = d.sum(False)
+            dz = (d * one).sum(False)
             grad.append((self.N * (d / y - dz / z)).sum())
         return grad
 
     def hess_like(self, params, y, der, hess):
         H = []
         z = y.sum(False)
-        dz = [d.sum(False) for d in der]
+        # the derivatives may be broadcasted along the outcomes
+        one = Tensor(np.ones_like(y), dim=y.dim)
+        dz = [(d * one).sum(False) for d in der]
         for i in range(len(params)):
             hess_line = []
             for j in range(i + 1):
                 h = hess[i][j]
-                hz = h.sum(False)
+                hz = (h * one).sum(False)
                 H1 = (h - der[i] * der[j].transpose() / y) / y
                 H2 = (hz - dz[i] * dz[j].transpose() / z) / z
                 hess_line.append((self.N * (H1 - H2)).sum())
-- 
2.43.0


From f3289a1fbe95247b73cd3c1a8ff0d6827b8ef273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 24/51] fix: constraints and penalties may list their
 parameters in any order

---
 maxlike/maxlike_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..829f46e 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -365,14 +365,21 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    if param_map[j] <= idx:
+                        hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    else:
+                        hess[param_map[j]][idx] += \
+                            gamma * hess_g[i][j].transpose()
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    if param_map[j] <= idx:
+                        hess[idx][param_map[j]] -= hess_h[i][j]
+                    else:
+                        hess[param_map[j]][idx] -= hess_h[i][j].transpose()
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 317e686ac1e8a15ceb68dd5cf8ae0840e3045dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 25/51] fix: constraint gradients of whole-number parameters

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 829f46e..2519799 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -353,7 +353,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         # Add blocks corresponding to constraint variables:
         # Hess_lambda_params = grad_g
-        hess_c = [[np.zeros_like(p) for p in params] for _ in range(c_len)]
+        hess_c = [[np.zeros(p.shape) for p in params] for _ in range(c_len)]
 
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
-- 
2.43.0


From 1ea040e2aaf1673d43f8cc6caf21823c1aa14c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 26/51] fix: parameters read only by a penalty or a constraint

---
 maxlike/maxlike_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2519799..4e368d3 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -337,7 +337,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        # a parameter that isn't read has a (scalar) zero derivative
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -395,7 +397,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        # the block of a parameter that isn't read may lack its axes
+        hess = [[(hess[i][j] + Tensor(
+                     np.zeros(p_i.shape + params[j].shape),
+                     len(p_i.shape), len(params[j].shape))).values[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From a204f38f49b86ec103848b63d2e898f116e7d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 27/51] fix: initial guesses given as lists may have fixed
 entries

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 4e368d3..112c2ff 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -21,7 +21,7 @@ class Param(object):
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=np.bool)
         else:
-            assert mask.shape == values.shape
+            assert np.shape(mask) == np.shape(values)
 
         object.__setattr__(self, 'values', np.asarray(values))
         object.__setattr__(self, 'mask',   np.asarray(mask))
-- 
2.43.0


From 5bd2c54b52e44de04ba73688ecf9d100337bea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 28/51] fix: verbose Broyden fit prints the objective

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 112c2ff..f40c0cb 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -548,7 +548,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From f85ba2e2e85e31f1bb2567ccf16639678afd8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 29/51] fix: Broyden fit from whole-number starting points

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index f40c0cb..c6dd7f8 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -543,7 +543,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
-                    flat_params += step[:i1]
+                    flat_params = flat_params + step[:i1]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
-- 
2.43.0


From 662e1eafd721f0f9c8a409fcea9e20263dc53b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 30/51] fix: fit marks the estimator as converged exactly when
 it converges

---
 maxlike/maxlike_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index c6dd7f8..340e354 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -471,6 +471,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             False.
         """
 
+        # marked as converged again only by a successful fit
+        converged = self.converged
+        self.converged = False
+
         dim = getattr(self, 'dim', 0)
         for k in kwargs:
             self.__dict__[k] = Tensor(kwargs[k], dim=dim)
@@ -515,6 +519,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
+                    self.converged = True
                     return True
 
         elif method == "broyden":
@@ -528,7 +533,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if not (self.converged and
+                if not (converged and
                         hasattr(self, 'flat_hess_') and
                         self.flat_hess_.shape[0] == grad.shape[0]):
                     self.flat_hess_ = self.flat_hess(params, y, der, hess).data
-- 
2.43.0


From 1a85f8073eb68afca3b365f99bf8d08a15ccc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 31/51] fix: Broyden fit stores the curvature only when it
 converges

---
 maxlike/maxlike_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 340e354..58a566f 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -536,9 +536,11 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if not (converged and
                         hasattr(self, 'flat_hess_') and
                         self.flat_hess_.shape[0] == grad.shape[0]):
-                    self.flat_hess_ = self.flat_hess(params, y, der, hess).data
+                    hess = self.flat_hess(params, y, der, hess)
+                else:
+                    hess = self.flat_hess_
 
-                J = pinvh(self.flat_hess_)
+                J = pinvh(hess)
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
-- 
2.43.0


From f1a303b781b7116dc87d1a5164bce80ba7f6bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 32/51] fix: Broyden fit keeps the parameters when its
 curvature cannot be computed

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 58a566f..c0946ba 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -558,8 +558,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
-                        self.params = params
                         self.flat_hess_ = pinvh(J)
+                        self.params = params
                         self.converged = True
                         return True
                     
-- 
2.43.0


From 639f71fd6271fc90bfc015c4c4ec60e32a820f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 33/51] fix: splitting a matrix into blocks fills the rows of
 fixed entries with their own value

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index c0946ba..5eb0dae 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -286,7 +286,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         else:
             return [[np.insert(np.insert(
                 matrix[s_[i]:s_[i + 1], s_[j]:s_[j + 1]],
-                val_map[i], val[f_[i]:f_[i + 1]], 0),
+                val_map[i], val[f_[i]:f_[i + 1], None], 0),
                 val_map[j], val[f_[j]:f_[j + 1]], 1).reshape(
                 p_i.shape + p_j.shape)
                 for j, p_j in enumerate(self.params)]
-- 
2.43.0


From f002037e79f1c8ebca8a49dbcaffe016d9baea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 34/51] fix: adding a mapped tensor to a scalar tensor expands
 the mapped entries

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 49bf7f2..fa750bb 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -862,6 +862,12 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if op_type == TensorOp.ADD:
+                return other.bin_op(self.values, TensorOp.ADD)
+            elif op_type == TensorOp.SUB:
+                return other.bin_op(self.values, TensorOp.RSUB)
+            elif op_type == TensorOp.RSUB:
+                return other.bin_op(self.values, TensorOp.SUB)
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From d58643e263fe0656d39922ce4f03448045209318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 35/51] fix: products of a mapped tensor read the diagonal of
 the other operand on the right axes

---
 maxlike/tensor/tensor.py | 65 +++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index fa750bb..95ca94a 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -57,9 +57,15 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
+        if arr.shape[q + k] == 1:
+            # constant along the axis
+            continue
+        if arr.shape[p + f] == 1:
+            arr = arr.swapaxes(q + k, p + f)
+            continue
         arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        arr = np.expand_dims(arr, q + k)
+        arr = np.moveaxis(arr, -1, p + f)
     return arr
 
 
@@ -80,17 +86,36 @@ def arr_expand_diag(arr, q, p, mapping):
 def arr_expand_cross_diag(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for i, j in zip(map1, map2):
-        if i == j:
+        if i == j or i < 0 or j < 0:
             continue
         n = arr.shape[p + i]
         idx[p + i] = n
         idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
+        arr = arr * np.eye(n).reshape(idx)
         idx[p + i] = 1
         idx[p + j] = 1
     return arr
 
 
+def arr_merge_mappings(arr1, arr2, q, p, map1, map2):
+    """
+    Prepares two arrays for an elementwise product
+    returns the arrays and the mappings of the product
+    """
+    if not map1 and not map2:
+        return arr1, arr2, array('b')
+    map1 = map1 or array('b', [-1] * len(map2))
+    map2 = map2 or array('b', [-1] * len(map1))
+    arr1 = arr_expand_cross_diag(arr1, p, map1, map2)
+    # axes that only one of the arrays maps
+    arr1 = arr_take_diag(arr1, q, p, [
+        j if i < 0 else -1 for i, j in zip(map1, map2)])
+    arr2 = arr_take_diag(arr2, q, p, [
+        i if j < 0 else -1 for i, j in zip(map1, map2)])
+    return arr1, arr2, array('b', [
+        i if i >= 0 else j for i, j in zip(map1, map2)])
+
+
 def arr_swapaxes_cross(arr, q, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
@@ -925,34 +950,14 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
-
-        if self.x_map:
-            x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
-        else:
-            x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
-
-        if self.y_map:
-            y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
-        else:
-            y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+        p = x_dim + y_dim
+        l_values, r_values, x_map = arr_merge_mappings(
+            l_values[l_idx], r_values[r_idx], 0, p, self.x_map, other.x_map)
+        l_values, r_values, y_map = arr_merge_mappings(
+            l_values, r_values, x_dim, p, self.y_map, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 7128b9152b896e71af7b323e01bcefdea48e6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 36/51] fix: numpy operations with a tensor as first operand
 use both operands in order

---
 maxlike/tensor/tensor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 95ca94a..db94b6b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -473,6 +473,13 @@ class GenericTensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            # the tensor is the left operand
+            op_type = {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV,
+            }.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
 
@@ -999,6 +1006,13 @@ class Tensor(BaseTensor):
             }[name]
         except:
             raise InvalidOperation('Invalid ufunc:', name)
+        if inputs[0] is self:
+            # the tensor is the left operand
+            op_type = {
+                TensorOp.RSUB: TensorOp.SUB,
+                TensorOp.RDIV: TensorOp.DIV,
+            }.get(op_type, op_type)
+            return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
     def __reshape_idx(self, x_dim, y_dim, n, dim):
-- 
2.43.0


From 23f295a69aedc5cadfcc1418578e8156726e3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 37/51] fix: numbers and arrays added to a lazily held sum
 become tensors

---
 maxlike/tensor/tensor.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index db94b6b..6b11bc2 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -395,20 +395,16 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
-            x_dim = self.x_dim
-            y_dim = self.y_dim
-            n = self.n
-            dim = self.dim
+        if np.isscalar(other) or isinstance(other, np.ndarray):
+            other = Tensor(other)
 
-        else:
-            x_dim = max(self.x_dim, other.x_dim)
-            y_dim = max(self.y_dim, other.y_dim)
-            n = max(self.n, other.n)
-            dim = max(self.dim, other.dim)
+        x_dim = max(self.x_dim, other.x_dim)
+        y_dim = max(self.y_dim, other.y_dim)
+        n = max(self.n, other.n)
+        dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, Tensor):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
-- 
2.43.0


From 74ba98565e1fad49254fb8de9c16d2aab05e4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 38/51] fix: elements of a lazily held sum carry every group of
 axes

---
 maxlike/tensor/tensor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 6b11bc2..0259bcb 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -261,7 +261,8 @@ class GenericTensor(BaseTensor):
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        object.__setattr__(self, 'elements', tuple(
+            el.align(x_dim, y_dim, n, dim) for el in elements))
 
     def toarray(self):
         return sum([el.toarray() if isinstance(el, Tensor) else el
@@ -1011,6 +1012,14 @@ class Tensor(BaseTensor):
             return self.bin_op(inputs[1], op_type)
         return self.bin_op(inputs[0], op_type)
 
+    def align(self, x_dim, y_dim, n, dim):
+        """
+        Adds the groups of axes that are missing
+        """
+        idx = self.__reshape_idx(x_dim, y_dim, n, dim)
+        return Tensor(self.values[idx], x_dim, y_dim, dim,
+                      self.x_map, self.y_map)
+
     def __reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
         if self.x_dim > 0:
-- 
2.43.0


From 9eaf215cd89005d02d0cd3a2312ce691c3480b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 39/51] fix: summing value axis 0 of a lazily held sum over its
 value axis only

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0259bcb..586c693 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -270,7 +270,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
-- 
2.43.0


From a77492f302d89cffb7c43301cce364e0ea31980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 40/51] fix: a parameter keeps its own read-only copy of the
 caller's values and mask

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 5eb0dae..e1f0e5c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -23,11 +23,12 @@ class Param(object):
         else:
             assert np.shape(mask) == np.shape(values)
 
-        object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'values', np.array(values))
+        object.__setattr__(self, 'mask',   np.array(mask))
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
+        self.mask.flags["WRITEABLE"] = False
 
     def compressed(self):
         return self.values[~self.mask]
-- 
2.43.0


From c3ade5984ab2751dc63e64c3632b1309d8295ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 41/51] fix: a tensor keeps its own copy of the caller's array

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 586c693..5e8838b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -495,7 +495,7 @@ class Tensor(BaseTensor):
         if dtype is None:
             dtype = TENSOR_DTYPE
 
-        object.__setattr__(self, 'values', np.asarray(values, dtype=dtype))
+        object.__setattr__(self, 'values', np.array(values, dtype=dtype))
         self.values.flags["WRITEABLE"] = False
 
         super(Tensor, self).__init__(
-- 
2.43.0


From 4e350408a4f36439cd549d2db442a7b8df8f14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 42/51] fix: the Poisson solver raises its errors instead of
 returning them

---
 maxlike/skellam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..94340a6 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError("Maximum steps reached")
     return a
 
 
-- 
2.43.0


From 8a3937d8dd9e122390c1c4cad460d941b663418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 43/51] fix: solvers that run out of steps raise a convergence
 error with a message

---
 maxlike/skellam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 94340a6..0d3dda6 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -156,7 +156,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("Maximum steps reached")
     return a, b
 
 
@@ -204,5 +204,5 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("Maximum steps reached")
     return a
-- 
2.43.0


From 22b4d33715820f50d97b13181f90f0348f4a1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 44/51] fix: the conditional Skellam solver counts its steps

---
 maxlike/skellam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 0d3dda6..f4a8de4 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -203,6 +203,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
             raise ConvergenceError("Maximum steps reached")
     return a
-- 
2.43.0


From 4065cb3b3f1b3f1727e49652555b5f400a173648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 45/51] fix: solvers go on while the residual is not a number

---
 maxlike/skellam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index f4a8de4..a9d9025 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -79,7 +79,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while abs(e) > abs(tol):
+    while not abs(e) <= abs(tol):
         f, df = poisson_cdf(a, n)
         e = target - f
         step = e / df
@@ -136,7 +136,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while e > abs(tol):
+    while not e <= abs(tol):
         skellam = skellam_cdf_pair(a, b, n, tol)
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
@@ -177,7 +177,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     size = tol2size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
-    while e > abs(tol):
+    while not e <= abs(tol):
         size = tol2size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
-- 
2.43.0


From 650ee94edda006df3e196f9b9e8f99a2993233d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:33 +0000
Subject: [PATCH 46/51] fix: solvers reject targets that are not numbers

---
 maxlike/skellam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index a9d9025..8f17d76 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -71,7 +71,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
         a = ((sqrt(phi ** 2 + 4 * n + 2) - phi) / 2) ** 2
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
-    if target >= 1 or target <= 0:
+    if not 0 < target < 1:
         raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
@@ -123,7 +123,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     """
     # if not (isinstance(target1, float) and isinstance(target2, float) and
     #        target1 > 0 and target2 > 0 and target1 + target2 < 1):
-    if target1 + target2 >= 1 or min(target1, target2) <= 0:
+    if not (target1 > 0 and target2 > 0 and target1 + target2 < 1):
         raise ValueError
     phi_d = ndtri(target1)
     phi_u = ndtri(1 - target2)
@@ -167,7 +167,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
 
     TODO: smart guess
     """
-    if target <= 0 or target >= 1:
+    if not 0 < target < 1:
         raise ValueError
     a = b
     e = 1
-- 
2.43.0


From a97c2ed5f64bb8c7c0ac6faf156fb6c491aa7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 47/51] fix: the Poisson solver evaluates positive rates only

---
 maxlike/skellam.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 8f17d76..f6f7ae5 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -84,18 +84,15 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
         e = target - f
         step = e / df
         scale_factor = 1
-        new_a = a + scale_factor * step
-        new_f = f
-        new_e = abs(target - new_f)
         for i in range(10):
-            if new_a > 0 and new_e < abs(e):
-                a = new_a
-                break
-            else:
-                new_a = a + scale_factor * step
+            new_a = a + scale_factor * step
+            if new_a > 0:
                 new_f, _ = poisson_cdf(new_a, n)
                 new_e = abs(target - new_f)
-                scale_factor *= .5
+                if new_e < abs(e):
+                    a = new_a
+                    break
+            scale_factor *= .5
         count += 1
         if count > max_steps:
             raise ConvergenceError("Maximum steps reached")
-- 
2.43.0


From f911f4657b0f1e6ecd26969cc873bd103fe6adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 48/51] fix: the Skellam solver reports a singular system as a
 convergence error

---
 maxlike/skellam.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index f6f7ae5..45f87c8 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -137,7 +137,10 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
         skellam = skellam_cdf_pair(a, b, n, tol)
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
-        step = np.linalg.solve(ds, target - s)
+        try:
+            step = np.linalg.solve(ds, target - s)
+        except np.linalg.LinAlgError:
+            raise ConvergenceError("Singular derivatives")
         scale_factor = 1
         new_ab = np.maximum((a, b) + scale_factor * step, floor)
         new_s = s
-- 
2.43.0


From 1e098a7fdd3b7db371efb32ec0415f34eb188ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 49/51] fix: Poisson probabilities do not overflow for large
 rates and sizes

---
 maxlike/skellam.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 45f87c8..bcfd210 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,13 +1,13 @@
 import numpy as np
-from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, gammaln, xlogy
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
-    dcurve = np.append(-1, curve[:-1] - curve[1:])
-    return exp(-a) * np.array([curve, dcurve])
+    x = np.arange(size)
+    curve = np.exp(xlogy(x, a) - gammaln(x + 1) - a)
+    dcurve = np.append(-curve[:1], curve[:-1] - curve[1:])
+    return np.array([curve, dcurve])
 
 
 def skellam_frame(a, b, size=10):
-- 
2.43.0


From 47f93db4c647587925995dec75fe10298c4ff40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 50/51] fix: standard errors without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index e1f0e5c..dcb0002 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -311,12 +311,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        n_free = sum(p.count() for p in self.params)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:n_free]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From cd07c9e61eac894c35690e8f3fc3d6ea0197b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 51/51] fix: copulas accept whole-number marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0

