From 73a89368d35ed255707da29ed65305ebd3221b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:11 +0000
Subject: [PATCH 01/33] fix: accept numpy arrays, numpy integers and tuples for
 nC in utfc and ELM mtfc

nC is documented as 'list or array', but only jax arrays and lists were
recognised: any other array left self.nC unset and raised AttributeError.
---
 src/tfc/mtfc.py | 6 +++---
 src/tfc/utfc.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..33a3579 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -199,11 +199,11 @@ class mtfc:
 
         # Create nC matrix based on user input
         if basis in self._elm_classes:
-            if isinstance(nC, int):
+            if isinstance(nC, (int, onp.integer)):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
-            elif isinstance(nC, list):
+            elif isinstance(nC, (list, tuple)):
                 self.nC = onp.array(nC, dtype=np.int32)
             if self.nC.shape[0] > self.deg:
                 TFCPrint.Error("Number of basis functions is less than number of constraints!")
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..134a92a 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -95,11 +95,11 @@ class utfc:
         self.deg = deg
         self._backend = backend
 
-        if isinstance(nC, int):
+        if isinstance(nC, (int, onp.integer)):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
-        elif isinstance(nC, list):
+        elif isinstance(nC, (list, tuple)):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
         if self.nC.shape[0] > self.deg:
             TFCPrint.Error("Number of basis functions is less than number of constraints!")
-- 
2.43.0


From a0f468bc03b7694d95127c9a75b985a99833a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:24 +0000
Subject: [PATCH 02/33] fix: read non-contiguous ELM weights and constructor
 arrays correctly in BF

The setters passed the raw data pointer of a possibly strided numpy array on,
so the elements between the strides were used instead of the array's values.
---
 src/tfc/utils/BF_Py.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..14429cb 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -5,8 +5,12 @@
 
 namespace py = pybind11;
 
+// Contiguous array arguments: the underlying data pointer can be read directly.
+using DblArray = py::array_t<double, py::array::c_style | py::array::forcecast>;
+using IntArray = py::array_t<int, py::array::c_style | py::array::forcecast>;
+
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, IntArray nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +32,7 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](DblArray x0, DblArray xf, IntArray nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +61,7 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](DblArray x0, DblArray xf, IntArray nC, int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +179,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, DblArray b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +193,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, DblArray w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +297,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, DblArray b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From ae060dda276e71c34e30924fcc5bce9587dd5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 03/33] fix: mtfc nC entries given as one-element lists name a
 basis function

[[3],[1]] was read as the counts 3 and 1; a list or array lists the basis
functions to remove, whatever its length.
---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 33a3579..7c8e65b 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From ef9cbc8e53ee7b20ff1cf9899e89c890c1337978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:07 +0000
Subject: [PATCH 04/33] fix: zero and traced tangents in the basis functions'
 JVP rules

An all-zero tangent left out_tans unbound in utfc, and a traced tangent (e.g.
the derivative of H(a*x) inside jit, or jacfwd with respect to x) was forced
to a boolean. mtfc also indexed the x0 argument rather than its default.
---
 src/tfc/mtfc.py |  5 +++--
 src/tfc/utfc.py | 22 ++++++++--------------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 7c8e65b..54361b8 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -335,7 +335,7 @@ class mtfc:
                 j = self.n[k] - 1
                 # Multiplying x0 by 0 here so the array will have the
                 # same type as x0.
-                I = onp.linspace(0 * x0[0], j, j + 1).reshape((j + 1, 1))
+                I = onp.linspace(0 * self.x0[0], j, j + 1).reshape((j + 1, 1))
                 dark = onp.cos(np.pi * (j - I) / float(j))
                 dark = onp.hstack([dark] * nProd).flatten()
                 self.z[k, :] = onp.array([dark] * nStack).flatten()
@@ -623,7 +623,8 @@ class mtfc:
             out_tans = np.zeros((dim0, dim1))
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    # A traced tangent has no concrete value, and must be treated as nonzero.
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 134a92a..53cf839 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,15 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
+            out = Hjax(x, d=d, full=full)
+            # A traced tangent has no concrete value, and must be treated as nonzero.
+            if type(dx) is ad.Zero or not (isinstance(dx, core.Tracer) or onp.any(dx != 0)):
+                out_tans = np.zeros_like(out)
+            elif len(dx.shape) == 1:
+                out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
             else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
-                else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+                out_tans = Hjax(x, d=d + 1, full=full) * dx
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From 096c80fde75dab4483fb28e60cc0b10b0ecd2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:21 +0000
Subject: [PATCH 05/33] fix: derivative of a vmapped mtfc basis

The JVP rule read shape[0] of a scalar inside vmap.
---
 src/tfc/mtfc.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 54361b8..f954da8 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -615,12 +615,8 @@ class mtfc:
         def H_jvp(arg_vals, arg_tans, d: tuple[int, ...] = d0, full: bool = False):
             n = len(arg_vals)
             flat = len(arg_vals[0].shape) == 1
-            dim0 = arg_vals[0].shape[0]
-            if full:
-                dim1 = self.basisClass.numBasisFuncFull
-            else:
-                dim1 = self.basisClass.numBasisFunc
-            out_tans = np.zeros((dim0, dim1))
+            out = Hjax(*arg_vals, d=d, full=full)
+            out_tans = np.zeros_like(out)
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
                     # A traced tangent has no concrete value, and must be treated as nonzero.
@@ -633,7 +629,7 @@ class mtfc:
                             )
                         else:
                             out_tans += Hjax(*arg_vals, d=dark, full=full) * arg_tans[k]
-            return (Hjax(*arg_vals, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From b48db61468cee807e498724ac26150cf93ee931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:42 +0000
Subject: [PATCH 06/33] fix: derivatives of the Python ReLU bases

The second derivative of ELMReLU had its dimensions swapped, and nELMReLU
could not find the differentiated variable when d was a tuple (as passed by
mtfc).
---
 src/tfc/utils/BF_Py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..d528654 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m), dtype=z.dtype)
 
 
 class ELMSigmoid(ELM):
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.asarray(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From 1830d9381cac85dfc05003540a8d66768e54a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 07/33] fix: keep the input dtype in the Python FS basis

The imaginary part of complex points was dropped.
---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index d528654..25eaae6 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
-- 
2.43.0


From d0a8f1157ecae06b27ad332a463f78f4a53580a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 08/33] fix: numpy arrays in TFCDictRobust and as the flat
 operand of + and -

TFCDictRobust ignored numpy values when making its slices, which made LS
fail on every TFCDictRobust, and adding or subtracting a flat numpy array
silently returned the dictionary unchanged.
---
 src/tfc/utils/TFCUtils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..748e0b9 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -446,7 +446,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]]
@@ -469,7 +469,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]]
@@ -493,7 +493,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]]
@@ -517,7 +517,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]]
@@ -556,7 +556,10 @@ class TFCDictRobust(OrderedDict):
         """
         Function that creates slices for each of the keys in the dictionary.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
+        if all(
+            isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
+            for value in self.values()
+        ):
             arrLen = 0
             self._slices = [
                 slice(0, 0, 1),
@@ -653,7 +656,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -676,7 +679,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -700,7 +703,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -724,7 +727,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
-- 
2.43.0


From 7208fd8b72569ff13f7a6eaf3652e02ddd6fbbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:11 +0000
Subject: [PATCH 09/33] fix: + and - of TFCDict and TFCDictRobust leave the
 left operand unchanged

out shares its numpy values with self, so the in-place operators wrote the
result into self as well.
---
 src/tfc/utils/TFCUtils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 748e0b9..be86dda 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -492,11 +492,12 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                key = self._keys[k]
+                out[key] = out[key] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -516,11 +517,12 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                key = self._keys[k]
+                out[key] = out[key] - o[self._slices[k]]
         return out
 
 
@@ -702,11 +704,12 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                out[key] = out[key] + o[self._slices[k]].reshape(self[key].shape)
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -726,11 +729,12 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                out[key] = out[key] - o[self._slices[k]].reshape(self[key].shape)
         return out
 
 
-- 
2.43.0


From eb22b02265a7a6107ccd19279be9b5145fe6dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:21 +0000
Subject: [PATCH 10/33] fix: TFCDict and TFCDictRobust track keys assigned or
 deleted after construction

Only update() refreshed the recorded keys and slices, so toDict, + and -
ignored keys added with d[key] = value, failed on deleted ones, and cut the
array at the wrong places when a value changed its length.
---
 src/tfc/utils/TFCUtils.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index be86dda..e859fa3 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -346,6 +346,12 @@ class TFCDict(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
+        self._refresh()
+
+    def _refresh(self) -> None:
+        """
+        Bring the record of the keys and their slices up to date with the dictionary.
+        """
         self._keys = list(self.keys())
         self._nKeys = len(self._keys)
         self.getSlices()
@@ -384,9 +390,7 @@ class TFCDict(OrderedDict):
             Same as *args for the update method of ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
+        self._refresh()
 
     def toArray(self) -> np.ndarray:
         """
@@ -413,6 +417,7 @@ class TFCDict(OrderedDict):
         TFCDict
             JAX array as a TFCDict
         """
+        self._refresh()
         arr = arr.flatten()
         return TFCDict(zip(self._keys, [arr[self._slices[k]] for k in range(self._nKeys)]))
 
@@ -426,6 +431,7 @@ class TFCDict(OrderedDict):
         TFCDict
             This TFCDict.
         """
+        self._refresh()
         self[self._keys[0]].block_until_ready()
         return self
 
@@ -443,6 +449,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after adding in the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
@@ -466,6 +473,7 @@ class TFCDict(OrderedDict):
         self : TFCDict
             A copy of self after subtracting the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
@@ -490,6 +498,7 @@ class TFCDict(OrderedDict):
             A TFCDict with values = self + o.
         """
         out = TFCDict(self)
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
@@ -515,6 +524,7 @@ class TFCDict(OrderedDict):
             A TFCDict with values = self - o.
         """
         out = TFCDict(self)
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
@@ -550,6 +560,12 @@ class TFCDictRobust(OrderedDict):
         # Store dictionary and keep a record of the keys. Keys will stay in same
         # order, so that adding and subtracting is repeatable.
         super().__init__(*args)
+        self._refresh()
+
+    def _refresh(self) -> None:
+        """
+        Bring the record of the keys and their slices up to date with the dictionary.
+        """
         self._keys = list(self.keys())
         self._nKeys = len(self._keys)
         self.getSlices()
@@ -588,9 +604,7 @@ class TFCDictRobust(OrderedDict):
             Same as *args for the update method on ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
+        self._refresh()
 
     def toArray(self) -> np.ndarray:
         """
@@ -617,6 +631,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             JAX array as a TFCDictRobust
         """
+        self._refresh()
         arr = arr.flatten()
         return TFCDictRobust(
             zip(
@@ -638,6 +653,7 @@ class TFCDictRobust(OrderedDict):
         TFCDictRobust
             This TFCDictRobust
         """
+        self._refresh()
         self[self._keys[0]].block_until_ready()
         return self
 
@@ -655,6 +671,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after adding in the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
@@ -678,6 +695,7 @@ class TFCDictRobust(OrderedDict):
         self : TFCDictRobust
             A copy of self after subtracting the values from o.
         """
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
@@ -702,6 +720,7 @@ class TFCDictRobust(OrderedDict):
             A TFCDictRobust with values = self + o.
         """
         out = TFCDictRobust(self)
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] + o[key]
@@ -727,6 +746,7 @@ class TFCDictRobust(OrderedDict):
             A TFCDictRobust with values = self - o.
         """
         out = TFCDictRobust(self)
+        self._refresh()
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] = out[key] - o[key]
-- 
2.43.0


From 25789181a2c8ec0d4815a215f318c0e2c178460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:59 +0000
Subject: [PATCH 11/33] fix: pe with constant_arg_nums in any order

The positions were popped from a list that earlier insertions had already
reordered, so e.g. [2,1] made argument 0 constant instead of argument 1.
---
 src/tfc/utils/TFCUtils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index e859fa3..2c44b83 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -233,9 +233,8 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     """
 
     # Reorder to put knowns first, then unknowns
-    order = [k for k in range(len(args))]
-    for k in constant_arg_nums:
-        order.insert(0, order.pop(k))
+    order = list(constant_arg_nums)
+    order += [k for k in range(len(args)) if k not in constant_arg_nums]
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
 
-- 
2.43.0


From d49d9e3f1f6b36ca2da0c3d0d198d2fa8c77621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:59 +0000
Subject: [PATCH 12/33] fix: LS and NLLS leave the caller's constant_arg_nums
 unchanged

They sorted and reversed the list in place.
---
 src/tfc/utils/TFCUtils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 2c44b83..6cb2d20 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -887,9 +887,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -1014,9 +1012,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1255,9 +1251,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1454,9 +1448,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From d471b9125c1f2b76aec5465e5580b21d50f8c64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 13/33] fix: pe with pytree constants and with outputs that
 only depend on constants

A pytree constant was passed as one leaf, and outputs known at trace time
were missing from the evaluated jaxpr.
---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 6cb2d20..f4e0b8c 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -260,7 +260,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                         )
                     )[0]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
@@ -275,7 +275,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From 51eed8366fdb15e89654faf654962e8f6e35a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:15 +0000
Subject: [PATCH 14/33] fix: LsClass.run without a timer

It called the undefined name ls. Adding in place also overwrote the caller's
zXi with the solution.
---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index f4e0b8c..b71adae 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1053,12 +1053,12 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
+            zXi = zXi + xi
 
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi = zXi + self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From 2232e96d8879384985424877813ae48b412fe06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:32 +0000
Subject: [PATCH 15/33] fix: use the user specified cond in NLLS and NllsClass

The default condition was defined under the parameter's name and replaced it.
---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index b71adae..29bc329 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1205,16 +1205,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1400,16 +1402,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From e1c85d1c7be51267315873b2bb0a0423044da931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:52 +0000
Subject: [PATCH 16/33] fix: setting CeSolver.phi makes the constrained
 expression stale

A previously computed ce was returned although it was built from the old
switching functions.
---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From 875156118fa4b34e8a8b1428368fdb971289eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 17/33] fix: TfcPrinter prints higher order and multivariate
 derivatives as valid code

The nested egrad calls were concatenated instead of nested, only the
differentiated variables were passed as arguments, and substitutions were
textual.
---
 src/tfc/utils/CeSolver.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..82dab8c 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -433,7 +433,8 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
-        return self._print(str(expr))
+        args = ", ".join(self._print(arg) for arg in expr.args)
+        return expr.func.__name__ + "(" + args + ")"
 
     def _print_Subs(self, subs: Expr) -> str:
         """
@@ -450,12 +451,14 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
+        if isinstance(expr, sp.Derivative):
+            return self._print_Derivative(expr, point=list(zip(old, new)))
         expr = self._print(expr)
         for k in range(len(old)):
             expr = expr.replace(self._print(old[k]), self._print(new[k]))
         return expr
 
-    def _print_Derivative(self, expr: Expr) -> str:
+    def _print_Derivative(self, expr: Expr, point: list = []) -> str:
         """
         Add in derivative printing function that uses egrad.
 
@@ -463,6 +466,8 @@ class TfcPrinter(PythonCodePrinter):
         ----------
         expr : Expr
             Expression to print.
+        point : list
+            Pairs (symbol, value) to substitute in the arguments of the derivative.
 
         Returns
         -------
@@ -485,15 +490,11 @@ class TfcPrinter(PythonCodePrinter):
         # expressions then use self._print() instead of str() or latex().
         # See the example of nested modulo below in the custom printing
         # method section.
-        name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
-        for pv in position_vars:
-            for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+        ret = function.func.__name__
+        for ind, order in position_vars:
+            for _ in range(order):
+                ret = "egrad(" + ret + "," + str(ind) + ")"
+        args = [arg.subs(point, simultaneous=True) for arg in function_vars]
+        ret += "(" + ", ".join(self._print(arg) for arg in args) + ")"
 
         return ret
-- 
2.43.0


From bfa200ce6a49a04101f15e7b62479ce334fd2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:59 +0000
Subject: [PATCH 18/33] fix: repeated entries in nC

The C++ basis allocated m - len(nC) columns but wrote one per retained
function, past the end of the matrix when an entry was repeated.
---
 src/tfc/mtfc.py | 2 ++
 src/tfc/utfc.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index f954da8..8c51729 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -205,6 +205,8 @@ class mtfc:
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
             elif isinstance(nC, (list, tuple)):
                 self.nC = onp.array(nC, dtype=np.int32)
+            # A repeated entry removes the basis function once
+            self.nC = onp.unique(self.nC)
             if self.nC.shape[0] > self.deg:
                 TFCPrint.Error("Number of basis functions is less than number of constraints!")
             if np.any(self.nC < 0):
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 53cf839..5232ae3 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -101,6 +101,8 @@ class utfc:
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
         elif isinstance(nC, (list, tuple)):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
+        # A repeated entry removes the basis function once
+        self.nC = onp.unique(self.nC)
         if self.nC.shape[0] > self.deg:
             TFCPrint.Error("Number of basis functions is less than number of constraints!")
         if np.any(self.nC < 0):
-- 
2.43.0


From 16459fa97f101ef7f4c27792973577455aeb1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 19/33] fix: ELM derivatives of order higher than eight

Sigmoid, tanh and swish ELMs silently returned the undifferentiated function (or nothing)
when the total derivative order exceeded eight.
---
 src/tfc/utils/BF.cc | 88 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 82504d0..5b0ea64 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -675,6 +675,30 @@ void ELMReLU::Hint(const int d, const double *x, const int nOut, double *dark) {
     return;
 }
 
+// Helpers for ELM derivatives of arbitrary order: ***********************************
+
+// Coefficients of the d-th derivative of y written as a polynomial in y, where y' = q0 + q1*y + q2*y^2.
+static std::vector<double> ActivationDerivative(const int d, const double q0, const double q1, const double q2) {
+    std::vector<double> p = {0., 1.};
+    for (int n = 0; n < d; n++) {
+        std::vector<double> q(p.size() + 1, 0.);
+        for (size_t i = 1; i < p.size(); i++) {
+            q[i - 1] += i * p[i] * q0;
+            q[i] += i * p[i] * q1;
+            q[i + 1] += i * p[i] * q2;
+        }
+        p = q;
+    }
+    return p;
+}
+
+static double EvalPoly(const std::vector<double> &p, const double y) {
+    double out = 0.;
+    for (size_t i = p.size(); i-- > 0;)
+        out = out * y + p[i];
+    return out;
+}
+
 // ELM Sigmoid: **********************************************************************
 void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark) {
     int j, k;
@@ -760,6 +784,14 @@ void ELMSigmoid::Hint(const int d, const double *x, const int nOut, double *dark
         }
         break;
     }
+    default: {
+        const std::vector<double> p = ActivationDerivative(d, 0., 1., -1.);
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], d) * EvalPoly(p, dark[m * j + k]);
+        }
+        break;
+    }
     }
     return;
 }
@@ -841,6 +873,14 @@ void ELMTanh::Hint(const int d, const double *x, const int nOut, double *dark) {
         }
         break;
     }
+    default: {
+        const std::vector<double> p = ActivationDerivative(d, 1., 0., -1.);
+        for (j = 0; j < nOut; j++) {
+            for (k = 0; k < m; k++)
+                dark[m * j + k] = pow(w[k], d) * EvalPoly(p, dark[m * j + k]);
+        }
+        break;
+    }
     }
     return;
 }
@@ -1000,6 +1040,16 @@ void ELMSwish::Hint(const int d, const double *x, const int nOut, double *dark)
             }
             break;
         }
+        default: {
+            const std::vector<double> p = ActivationDerivative(d, 0., 1., -1.);
+            const std::vector<double> p1 = ActivationDerivative(d - 1, 0., 1., -1.);
+            for (j = 0; j < nOut; j++) {
+                for (k = 0; k < m; k++)
+                    dark[m * j + k] = pow(w[k], d) * (d * EvalPoly(p1, sig[m * j + k]) +
+                                                      zint[m * j + k] * EvalPoly(p, sig[m * j + k]));
+            }
+            break;
+        }
         }
     }
 
@@ -1537,6 +1587,18 @@ void nELMSigmoid::nElmHint(const int *d, int dDim0, const double *x, const int i
         }
         break;
     }
+    default: {
+        const std::vector<double> p = ActivationDerivative(dark1, 0., 1., -1.);
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * EvalPoly(p, F[m * j + k]);
+            }
+        }
+        break;
+    }
     }
     return;
 }
@@ -1661,6 +1723,18 @@ void nELMTanh::nElmHint(const int *d, int dDim0, const double *x, const int in,
         }
         break;
     }
+    default: {
+        const std::vector<double> p = ActivationDerivative(dark1, 1., 0., -1.);
+        for (j = 0; j < in; j++) {
+            for (k = 0; k < m; k++) {
+                dark = 1.;
+                for (i = 0; i < dDim0; i++)
+                    dark *= pow(w[i * m + k], d[i]);
+                F[m * j + k] = dark2 * dark * EvalPoly(p, F[m * j + k]);
+            }
+        }
+        break;
+    }
     }
     return;
 }
@@ -1896,6 +1970,20 @@ void nELMSwish::nElmHint(const int *d, int dDim0, const double *x, const int in,
             }
             break;
         }
+        default: {
+            const std::vector<double> p = ActivationDerivative(dark1, 0., 1., -1.);
+            const std::vector<double> p1 = ActivationDerivative(dark1 - 1, 0., 1., -1.);
+            for (j = 0; j < in; j++) {
+                for (k = 0; k < m; k++) {
+                    dark = 1.;
+                    for (i = 0; i < dDim0; i++)
+                        dark *= pow(w[i * m + k], d[i]);
+                    F[m * j + k] = dark2 * dark * (dark1 * EvalPoly(p1, sig[m * j + k]) +
+                                                   zint[m * j + k] * EvalPoly(p, sig[m * j + k]));
+                }
+            }
+            break;
+        }
         }
     }
     delete[] sig;
-- 
2.43.0


From 9973a48409dea0b5a7c8422590b11fcf7940f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:25 +0000
Subject: [PATCH 20/33] fix: x0 of mtfc defaults to zero when it is not given

---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 8c51729..bf58934 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -4,7 +4,7 @@ config.update("jax_enable_x64", True)
 
 import numpy as onp
 import jax.numpy as np
-from typing import cast
+from typing import Optional, cast
 import numpy.typing as npt
 from .utils.tfc_types import (
     Literal,
@@ -83,7 +83,7 @@ class mtfc:
         basis: Literal[
             "CP", "LeP", "FS", "ELMTanh", "ELMSigmoid", "ELMSin", "ELMSwish", "ELMReLU"
         ] = "CP",
-        x0: NumberListOrArray = [],
+        x0: Optional[NumberListOrArray] = None,
         xf: NumberListOrArray = [],
         backend: Literal["C++", "Python"] = "C++",
     ):
-- 
2.43.0


From 5b3586a0dec51135f2867e7449763683a8572cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:08 +0000
Subject: [PATCH 21/33] fix: 0-d unknowns of a TFCDictRobust in LS and NLLS

---
 src/tfc/utils/TFCUtils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 29bc329..a9c0092 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -861,7 +861,7 @@ def LS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int))
                             for k in xi.keys()
                         ]
                     )
@@ -984,7 +984,7 @@ class LsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int)
                                 )
                                 for k in xi.keys()
                             ]
@@ -1226,7 +1226,7 @@ def NLLS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int))
                             for k in xi.keys()
                         ]
                     )
@@ -1424,7 +1424,7 @@ class NllsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], onp.prod(xi[k].shape, dtype=int)
                                 )
                                 for k in xi.keys()
                             ]
-- 
2.43.0


From b6e4b0e97f3d8e6f87c502a48e5c8391fc74facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:45 +0000
Subject: [PATCH 22/33] fix: pe with integer arguments that are not constant

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index a9c0092..0597747 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -255,7 +255,7 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
                 if unknown:
                     return tree_flatten(
                         (
-                            tree_map(lambda x: PartialVal.unknown(typeof(x).at_least_vspace()), a),
+                            tree_map(lambda x: PartialVal.unknown(typeof(x)), a),
                             {},
                         )
                     )[0]
-- 
2.43.0


From d58af9f484bbc78701ee27cc309f13d9cb6c2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:27 +0000
Subject: [PATCH 23/33] fix: TfcPrinter leaves sympy's own code printer
 unchanged

---
 src/tfc/utils/CeSolver.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 82dab8c..9084895 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -373,12 +373,9 @@ class CeSolver:
 class TfcPrinter(PythonCodePrinter):
     def __init__(self, settings=None):
         # Switch math to numpy
-        for k, v in self._kf.items():
-            if "math" in v:
-                self._kf[k] = v.replace("math", "np")
-        for k, v in self._kc.items():
-            if "math" in v:
-                self._kc[k] = v.replace("math", "np")
+        # These are copies, as the originals belong to sympy's PythonCodePrinter
+        self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
+        self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
         super().__init__(settings=settings)
 
-- 
2.43.0


From f970b0406327dba12cb5fd9e8da8e6c1187b43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 24/33] fix: egrad of callables without a __qualname__

---
 src/tfc/utils/TFCUtils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 0597747..b513393 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -177,7 +177,8 @@ def egradRobust(g: Callable[..., Any], j: uint = 0):
     wrapped : function
         Derivative function
     """
-    if g.__qualname__ == "jit.<locals>.f_jitted":
+    # Not every callable has a __qualname__, e.g., functools.partial does not.
+    if getattr(g, "__qualname__", None) == "jit.<locals>.f_jitted":
         g = g.__wrapped__
 
     def wrapped(*args: Any) -> Any:
-- 
2.43.0


From 77888655fe871d0c4a32444792f8d38e4da5c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 25/33] fix: ScaledQrLs scales the rows of the solution when B
 is a matrix

---
 src/tfc/utils/TFCUtils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index b513393..8883fb8 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1729,7 +1729,8 @@ def ScaledQrLs(A: np.ndarray, B: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
     S = 1.0 / np.sqrt(np.sum(A * A, 0))
     S = np.reshape(S, (A.shape[1],))
     q, r = np.linalg.qr(A.dot(np.diag(S)))
-    x: np.ndarray = S * np.linalg.multi_dot([_MatPinv(r), q.T, B])
+    # S scales the rows of the solution; the transposes keep this true when B has several columns.
+    x: np.ndarray = (S * np.linalg.multi_dot([_MatPinv(r), q.T, B]).T).T
     cn: np.ndarray = cast(np.ndarray, np.linalg.cond(r))
     return x, cn
 
-- 
2.43.0


From 3b5368e746e65eacf1f99af93c68b5aee9e08d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:56 +0000
Subject: [PATCH 26/33] fix: MakePlot puts titles on their own subplot when
 some of them are None

---
 src/tfc/utils/MakePlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 2b646d5..baf19a5 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -178,9 +178,10 @@ class MakePlot:
             count = 0
             for j in range(n[0]):
                 for k in range(n[1]):
-                    if titles[j, k] is None:
+                    if xlabs[j, k] is None:
                         continue
-                    self.ax[count].set_title(titles[j, k])
+                    if titles[j, k] is not None:
+                        self.ax[count].set_title(titles[j, k])
                     count += 1
 
         # Set tight layout for the figure
-- 
2.43.0


From 20cb1b65ac835c8e35c81e5c8d6de1a2f8a47f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:56 +0000
Subject: [PATCH 27/33] fix: PlotlyMakePlot addresses the subplots of grids
 with several rows and columns

---
 src/tfc/utils/PlotlyMakePlot.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index b820a81..6e9e35b 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -159,6 +159,8 @@ class MakePlot:
                     "The titles provided are not of a valid type. Please provide valid titles."
                 )
 
+        self._numCols = xlabs.shape[1]
+
         if int(np.prod(xlabs.shape)) != 1:
             from plotly.subplots import make_subplots
 
@@ -203,13 +205,13 @@ class MakePlot:
                                 title=zlabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                                 title=zlabs[row, col], exponentformat="e"
                             )
 
@@ -222,10 +224,10 @@ class MakePlot:
                                 title=ylabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["xaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["xaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["yaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["yaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
 
@@ -262,17 +264,17 @@ class MakePlot:
                             "backgroundcolor"
                         ] = self._backgroundColor
                     else:
-                        self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
@@ -604,7 +606,7 @@ class MakePlot:
             ]
         )
         if row and col:
-            sceneNum = row + col - 1
+            sceneNum = (row - 1) * self._numCols + col
             if sceneNum == 1:
                 sceneNum = ""
             else:
-- 
2.43.0


From ce870160f5158a9a0d674c7e542d2aa1cc4df4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 28/33] fix: NormalizeColorScale with cmax or cmin given, or
 with data that is not an array

---
 src/tfc/utils/PlotlyMakePlot.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index 6e9e35b..26d5403 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -698,14 +698,9 @@ class MakePlot:
             cmin = np.inf
             for k in dark:
                 if k.__class__.__name__ in types:
-                    if data in k:
-                        kmax = k[data].max()
-                        kmin = k[data].min()
-
-                    if kmax > cmax:
-                        cmax = kmax
-                    if kmin < cmin:
-                        cmin = kmin
+                    if data in k and k[data] is not None:
+                        cmax = max(cmax, np.max(k[data]))
+                        cmin = min(cmin, np.min(k[data]))
 
         colorScaleUpdate = {}
         if not cmax is None:
@@ -715,5 +710,4 @@ class MakePlot:
 
         for k in dark:
             if k.__class__.__name__ in types:
-                if data in k:
-                    k.update(colorScaleUpdate)
+                k.update(colorScaleUpdate)
-- 
2.43.0


From 03ea0fcdc2ff414c39711aaf5789925dc2e7e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 29/33] fix: Latex tables whose number format starts or ends
 with brackets

---
 src/tfc/utils/Latex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 819cac1..43f94d1 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -71,12 +71,12 @@ class table:
                 for k in range(numRows):
                     out += np.array2string(
                         arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                    ).strip("[]")
+                    )[1:-1]
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
                     arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                ).strip("[]")
+                )[1:-1]
                 out += "\\\\\n"
         else:
             if np.size(arrIn.shape) == 2:
@@ -85,12 +85,12 @@ class table:
                     out += rowHeader[k] + " & "
                     out += np.array2string(
                         arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                    ).strip("[]")
+                    )[1:-1]
                     out += "\\\\\n\\hline\n"
             else:
                 out += np.array2string(
                     arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                ).strip("[]")
+                )[1:-1]
                 out += "\\\\\n"
         return out.rstrip()
 
-- 
2.43.0


From 247432c4bb4d8e2c8e313ceebff5aa940b45011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:12 +0000
Subject: [PATCH 30/33] fix: TfcPrinter prints unevaluated substitutions and
 derivatives of expressions

---
 src/tfc/utils/CeSolver.py | 42 +++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 9084895..9aafe95 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -1,6 +1,7 @@
 import sympy as sp
 from sympy import Expr
 from sympy.core.function import AppliedUndef
+from sympy.printing.precedence import PRECEDENCE
 from sympy.printing.pycode import PythonCodePrinter
 from sympy.simplify.simplify import nc_simplify
 from .tfc_types import ConstraintOperators, Exprs, Any, Literal, ConstraintOperator
@@ -448,12 +449,37 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        if isinstance(expr, sp.Derivative):
+        if isinstance(expr, sp.Derivative) and self._isEgrad(expr):
             return self._print_Derivative(expr, point=list(zip(old, new)))
-        expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+
+        # Print unique names in place of the symbols first, as those may be part of other names
+        names = [sp.Symbol("_subs%d_" % sp.Dummy().dummy_index) for _ in old]
+        ret = self.parenthesize(expr.xreplace(dict(zip(old, names))), PRECEDENCE["Func"])
+        for k, name in enumerate(names):
+            value = new[k].xreplace(dict(zip(old[k + 1 :], names[k + 1 :])))
+            ret = ret.replace(str(name), self.parenthesize(value, PRECEDENCE["Func"]))
+        return ret
+
+    @staticmethod
+    def _isEgrad(expr: Expr) -> bool:
+        """
+        Whether a derivative is one of a free function with respect to some of its arguments.
+
+        Parameters
+        ----------
+        expr : Expr
+            Derivative.
+
+        Returns
+        -------
+        bool
+            True if the derivative can be written with egrad.
+        """
+        function, *vars = expr.args
+        return isinstance(function, AppliedUndef) and all(
+            var[0] in function.args and sum(arg.has(var[0]) for arg in function.args) == 1
+            for var in vars
+        )
 
     def _print_Derivative(self, expr: Expr, point: list = []) -> str:
         """
@@ -476,6 +502,10 @@ class TfcPrinter(PythonCodePrinter):
         # For example, dg/dx will have vars [(x,1)]
         function, *vars = expr.args
 
+        # Everything else is differentiated here
+        if not self._isEgrad(expr):
+            return self.parenthesize(expr.doit(), PRECEDENCE["Func"])
+
         # Find position for each derivative
         function_vars = function.args
         position_vars = []
@@ -491,7 +521,7 @@ class TfcPrinter(PythonCodePrinter):
         for ind, order in position_vars:
             for _ in range(order):
                 ret = "egrad(" + ret + "," + str(ind) + ")"
-        args = [arg.subs(point, simultaneous=True) for arg in function_vars]
+        args = [arg.subs(point) for arg in function_vars]
         ret += "(" + ", ".join(self._print(arg) for arg in args) + ")"
 
         return ret
-- 
2.43.0


From b1edb937a5ac50b95018e1571e8c2d6f03692aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 31/33] fix: refuse nC entries that are greater than deg

The C++ layer wrote beyond its arrays for these.
---
 src/tfc/mtfc.py | 2 ++
 src/tfc/utfc.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index bf58934..c9e4ba6 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -213,6 +213,8 @@ class mtfc:
                 TFCPrint.Error(
                     "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
                 )
+            if np.any(self.nC > self.deg):
+                TFCPrint.Error("nC contains a basis function number that is greater than deg!")
         else:
             if isinstance(nC, int):
                 TFCPrint.Error(
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 5232ae3..af840e6 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -109,6 +109,8 @@ class utfc:
             TFCPrint.Error(
                 "To set nC to -1 (no constraints) either use nC = -1 or nC = 0 (i.e., use an integer not a list or array). Do not put only -1 in a list or array, this will cause issues in the C++ layer."
             )
+        if np.any(self.nC > self.deg):
+            TFCPrint.Error("nC contains a basis function number that is greater than deg!")
 
         self.basis = basis
 
-- 
2.43.0


From c1f3759e8e913bbea913b0138772105888d08802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 32/33] fix: compiled C++ bases evaluated at points that are
 not doubles

The custom calls read the buffer of single precision or integer points as doubles. Complex points lost their imaginary part without notice; they are refused now.
---
 src/tfc/mtfc.py | 6 ++++++
 src/tfc/utfc.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index c9e4ba6..6037fa7 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -544,6 +544,12 @@ class mtfc:
         H_p = Primitive("H")
 
         def Hjax(*x: JaxOrNumpyArray, d: tuple[int, ...] = d0, full: bool = False):
+            if self._backend == "C++":
+                # The C++ code reads doubles
+                if any(np.iscomplexobj(k) for k in x):
+                    TFCPrint.Error("The C++ backend cannot be used for complex points.")
+                if any(isinstance(k, core.Tracer) for k in x):
+                    x = tuple(np.asarray(k, dtype=np.float64) for k in x)
             return cast(npt.NDArray, H_p.bind(*x, d=d, full=full))
 
         # Implicit translations
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index af840e6..521d809 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -296,6 +296,12 @@ class utfc:
         H_p = Primitive("H")
 
         def Hjax(x: JaxOrNumpyArray, d: uint = 0, full: bool = False) -> npt.NDArray:
+            if self._backend == "C++":
+                # The C++ code reads doubles
+                if np.iscomplexobj(x):
+                    TFCPrint.Error("The C++ backend cannot be used for complex points.")
+                if isinstance(x, core.Tracer):
+                    x = x.astype(np.float64)
             return cast(npt.NDArray, H_p.bind(x, d=d, full=full))
 
         # Implicit translation
-- 
2.43.0


From ba28237209f48a78b4a954108d3447329eab5326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:23 +0000
Subject: [PATCH 33/33] fix: vmap of the bases over rows of points or some
 coordinates only

The batching rule gave matrices of the wrong shape or values. Points that are not 1-dimensional, coordinates of different lengths, and the wrong number of coordinates are refused, as the C++ code read beyond the arrays for these.
---
 src/tfc/mtfc.py | 19 ++++++++++++++++++-
 src/tfc/utfc.py |  7 ++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 6037fa7..2bd3ff3 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -544,6 +544,10 @@ class mtfc:
         H_p = Primitive("H")
 
         def Hjax(*x: JaxOrNumpyArray, d: tuple[int, ...] = d0, full: bool = False):
+            if len(x) != self.dim:
+                TFCPrint.Error(
+                    f"H was given {len(x)} arrays of points, but the number of dimensions is {self.dim}."
+                )
             if self._backend == "C++":
                 # The C++ code reads doubles
                 if any(np.iscomplexobj(k) for k in x):
@@ -564,6 +568,10 @@ class mtfc:
                 dim1 = self.basisClass.numBasisFuncFull
             else:
                 dim1 = self.basisClass.numBasisFunc
+            if any(k.shape != x[0].shape for k in x) or (
+                len(x[0].shape) > 0 and x[0].size != x[0].shape[0]
+            ):
+                TFCPrint.Error("The points given to H must be 1-dimensional and of equal length.")
             if len(x[0].shape) == 0:
                 dims = (dim1,)
             else:
@@ -617,7 +625,16 @@ class mtfc:
 
         # Batching translation
         def H_batch(vec, batch, d: tuple[int, ...] = d0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # The basis functions are evaluated for all points in the batch at once
+            size = next(v.shape[b] for v, b in zip(vec, batch) if b is not None)
+            x = tuple(
+                np.broadcast_to(v, (size,) + np.shape(v))
+                if b is None
+                else np.moveaxis(v, b, 0)
+                for v, b in zip(vec, batch)
+            )
+            out = Hjax(*[k.reshape(-1) for k in x], d=d, full=full)
+            return out.reshape(x[0].shape[:2] + (out.shape[1],)), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 521d809..d0bb1e6 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -316,6 +316,8 @@ class utfc:
                 dim1 = self.basisClass.m
             else:
                 dim1 = self.basisClass.m - self.basisClass.numC
+            if len(x.shape) > 0 and x.size != x.shape[0]:
+                TFCPrint.Error("The points given to H must be 1-dimensional.")
             if len(x.shape) == 0:
                 dims = (dim1,)
             else:
@@ -363,7 +365,10 @@ class utfc:
 
         # Define batching translation
         def H_batch(vec, batch, d: uint = 0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            # The basis functions are evaluated for all points in the batch at once
+            x = np.moveaxis(vec[0], batch[0], 0)
+            out = Hjax(x.reshape(-1), d=d, full=full)
+            return out.reshape(x.shape[:2] + (out.shape[1],)), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
-- 
2.43.0

