From b09198fe1c054643611526d3f7a409315c113c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 01/30] fix: kbnsum: use the stride of x when looking for nan
 after an infinite element

---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From b4ead056475de3899acc28434224d65378d84a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 02/30] fix: bincount: unsigned values of 2**63 or more are out
 of range, not negative indices

---
 src/bincount/bincount_gufunc.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..1fd6c9d 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -36,7 +36,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +44,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +53,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +82,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +130,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From ffdfcfd39fcdf8d1ddfee69f9d22db178a14b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 03/30] fix: bincount: do not overflow the type of x when
 computing the default m

---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..3d34371 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From be27e40184cb2a543b8a735aeb22be6e1272fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 04/30] fix: bincount: accumulate into an out array of any data
 type, byte order or alignment

---
 ufunclab/_wrapped.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3d34371..8266cce 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,18 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _accumulate(gufunc, *args, out, axes):
+    # The bincount gufuncs add to the values already in `out`.  NumPy does not
+    # copy those values to the temporary array that it creates when `out` can
+    # not be passed directly to the inner loop, so handle that case here.
+    dtypes = tuple(a.dtype for a in args)
+    loop_dtype = gufunc.resolve_dtypes(dtypes + (None,))[-1]
+    if out.dtype == loop_dtype and out.flags.aligned:
+        return gufunc(*args, out=out, axes=axes)
+    counts = gufunc(*args, out=np.zeros(out.shape, dtype=loop_dtype), axes=axes)
+    return np.add(out, counts, out=out, casting='same_kind')
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -185,7 +197,8 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        return _accumulate(_bincountw, x, weights, out=out,
+                           axes=[axis, axis, axis])
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -199,7 +212,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        return _accumulate(_bincount, x, out=out, axes=[axis, axis])
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From ca0678036ba1502d0e865a183842bf4646ab01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 05/30] fix: gendot: handle the identity -1 for unsigned types

---
 ufunclab/_gendot_wrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..b1870ab 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -188,7 +188,9 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # The identity can be -1 (e.g. for `bitwise_and`), which has to
+            # wrap around for unsigned types.
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From b52c63db5f593065b74c1c728adbf1d9969d2ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 06/30] fix: gendot: do not use an inner loop of sumfunc that
 can not be iterated

---
 ufunclab/_gendot_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index b1870ab..631182e 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -168,6 +168,11 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
             sum_intype = sum_type.replace(' ', '').split('->')[0]
+            if (sumfunc.nin == 2
+                    and sum_type.replace(' ', '')[-1] != prod_outtype):
+                # The output of an element-wise sumfunc is also its first
+                # input in the next step of the reduction.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
-- 
2.43.0


From 1c1b3c9ee11fc7251fd459050c025eb7898cae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:14 +0000
Subject: [PATCH 07/30] fix: gendot: size the temporary array for the output
 type of prodfunc

---
 src/gendot/gendotmodule.c | 17 +++++++++++------
 ufunclab/_gendot_wrap.py  |  5 ++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..ce154fe 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -18,6 +18,7 @@ typedef struct gendot_data_t {
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
     npy_intp sumfunc_loop_itemsize;
+    npy_intp prodfunc_out_itemsize;
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
     // sumfunc_identity_buffer is large enough to hold an instance
@@ -30,6 +31,7 @@ typedef struct gendot_data_t {
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
+#define PRODFUNC_OUT_ITEMSIZE(p)    (((gendot_data_t *)(p))->prodfunc_out_itemsize)
 #define SUMFUNC_NIN(p)              (((gendot_data_t *)(p))->sumfunc_nin)
 #define SUMFUNC_HAS_IDENTITY(p)     (((gendot_data_t *)(p))->sumfunc_has_identity)
 #define SUMFUNC_IDENTITY_BUFFER(p)  (((gendot_data_t *)(p))->sumfunc_identity_buffer)
@@ -122,14 +124,16 @@ gendot_loop(char **args, const npy_intp *dimensions,
         }
     }
 
-    char *tmp = malloc(dimensions[1] * itemsize);
+    // The elements of tmp are the output of prodfunc and the input of sumfunc.
+    size_t tmp_itemsize = PRODFUNC_OUT_ITEMSIZE(data);
+    char *tmp = malloc(dimensions[1] * tmp_itemsize);
     if (tmp == NULL) {
         NPY_ALLOW_C_API_DEF
         NPY_ALLOW_C_API
             PyErr_Format(PyExc_MemoryError,
                 "Unable to allocate %ld bytes (%ld items, each with size %ld) "
                 "for intermediate calculation",
-                dimensions[1] * itemsize, dimensions[1], itemsize);
+                dimensions[1] * tmp_itemsize, dimensions[1], tmp_itemsize);
         NPY_DISABLE_C_API
         return;
     }
@@ -145,7 +149,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     }
     prodfunc_steps[0] = steps[3];
     prodfunc_steps[1] = steps[4];
-    prodfunc_steps[2] = itemsize;
+    prodfunc_steps[2] = tmp_itemsize;
 
     PyUFuncGenericFunction * sumfunc_loop = SUMFUNC_LOOP(data);
     void *sumfunc_loop_data = SUMFUNC_LOOP_DATA(data);
@@ -171,7 +175,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // sumfunc_args[1] is updated in each iteration of the loop below.
         char *sumfunc_args[2] = {tmp, NULL};
         npy_intp sumfunc_dimensions[2] = {1, dimensions[1]};
-        npy_intp sumfunc_steps[3] = {0, 0, itemsize};
+        npy_intp sumfunc_steps[3] = {0, 0, tmp_itemsize};
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
@@ -315,11 +319,12 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
-        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
+        gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[2*i];
+        gendot_data[i].prodfunc_out_itemsize = gendot_itemsizes[2*i + 1];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
                sumfunc_identity_data + 32*i,  // FIXME: hard-coded constant 32 :(
-               gendot_itemsizes[i]);
+               gendot_itemsizes[2*i]);
 
         gendot_data_ptrs[i] = &gendot_data[i];
     }
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 631182e..785c307 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -178,7 +178,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
                 dot_types.append((prod_type, sum_type))
     typechars = [prod_type[:2] + sum_type[-1]
                  for prod_type, sum_type in dot_types]
-    itemsizes = np.array([np.dtype(c[-1]).itemsize for c in typechars],
+    # The sizes of the output type of sumfunc and of the output type of prodfunc.
+    itemsizes = np.array([[np.dtype(sum_type[-1]).itemsize,
+                           np.dtype(prod_type[-1]).itemsize]
+                          for prod_type, sum_type in dot_types],
                          dtype=np.intp)  # Actually, np.uint8 would be OK.
 
     typecodes = np.array([[reverse_typedict[np.dtype(c).type] for c in chars]
-- 
2.43.0


From db28ed8d4baea918cfb7600d173eed242bb56f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 08/30] fix: linear_interp1d: do not read past the end of xp
 and fp

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..fce80e2 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,12 +89,13 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if ((x < left) || (x > right) || (x != x)
+                || ((n == 1) && (x != left))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
@@ -133,7 +134,8 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if ((x < left) || (x > right) || (x != x)
+                || ((n == 1) && (x != left))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
             *((@ctype@ *) pout) = NPY_NAN;
-- 
2.43.0


From d16f8faada7ebff057dca4e1bcbad65ab8965f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:58 +0000
Subject: [PATCH 09/30] fix: ordered: a sequence with an unordered pair (nan)
 is not ordered

---
 src/ordered/ordered_gufunc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..e0f9033 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
-- 
2.43.0


From 8594b20b5661f000d0c5e12ffb63281f39f174a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:58 +0000
Subject: [PATCH 10/30] fix: ordered: compare consecutive elements in object
 arrays

---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index e0f9033..15f6764 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From a0e500b5e272594a051d73233fdc219ed47493b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:58 +0000
Subject: [PATCH 11/30] fix: ordered: raise an exception for an invalid op with
 an object array

---
 src/ordered/ordered_gufunc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 15f6764..8359891 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -132,6 +132,11 @@ static void ordered_core_object(
     int op = *p_op;
     *p_out = true;
     if (n > 1) {
+        // PyObject_RichCompareBool() requires a valid comparison operation.
+        if (op < Py_LT || op > Py_GE) {
+            PyErr_Format(PyExc_ValueError, "invalid comparison operation: %d", op);
+            return;
+        }
         PyObject *x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             PyObject *x2 = get(p_x, x_stride, k);
-- 
2.43.0


From a3804343138352a57fb4e75437639998ba122a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 12/30] fix: convert_to_base: handle the bases 0 and -1 without
 trapping

---
 src/convert_to_base/convert_to_base_gufunc.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..885e7d0 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,8 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <cfenv>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -20,6 +22,23 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    // The C++ operators % and / are undefined when base is 0, and when
+    // base is -1 and k is the smallest value of a signed type. As in NumPy,
+    // a division by zero gives 0 and sets the floating point status flag.
+    if (base == 0) {
+        std::feraiseexcept(FE_DIVBYZERO);
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
+    if (base < static_cast<T>(0) && base == static_cast<T>(-1)) {
+        // base is -1, so all the remainders are 0.
+        for (npy_intp i = 0; i < n; ++i) {
+            set(p_out, out_stride, i, static_cast<T>(0));
+        }
+        return;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From b75cd1fa6ece0ee0c67287bb2fb5c9cbcd18bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 13/30] fix: sosfilter: with no sections the output is the
 input

---
 src/sosfilter/sosfilter_gufunc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..8c658e9 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -44,7 +44,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi + get2d(p_zf, zf_strides, k, 0);
-                p_y[i] = yi;
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -57,6 +56,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            p_y[i] = xi;
         }
     }
     else {
@@ -66,7 +66,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi +get2d(p_zf, zf_strides, k, 0);
-                set(p_y, y_stride, i, yi);
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -79,6 +78,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -114,7 +114,6 @@ static void sosfilter_ic_contig_core(
 
             // y[i] = sos[k, 0]*xi + zf[k, 0];
             T yi = (*(p_sos + 6*k))*xi + (*(p_zf + 2*k));
-            p_y[i] = yi;
 
             // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
             *(p_zf + 2*k) = (*(p_zf + 2*k + 1)) + (*(p_sos + 6*k + 1))*xi - (*(p_sos + 6*k + 4))*yi;
@@ -124,6 +123,7 @@ static void sosfilter_ic_contig_core(
 
             xi = yi;
         }
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From a4cbaeaafc9de619fd3aea69c086fb838d904e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 14/30] fix: percentileofscore: return nan for an invalid kind

---
 src/percentileofscore/percentileofscore_gufunc.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..9215e72 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -7,6 +7,7 @@
 
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
+#include "numpy/npy_math.h"
 
 #include "../src/util/strided.hpp"
 
@@ -64,7 +65,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +82,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Not a valid kind.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From 1c13433f95f01e0b2d83c580398ab91b191612e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 15/30] fix: unwrap: do not convert the number of periods to
 int

---
 src/unwrap/unwrap_gufunc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..3af85b3 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = std::trunc(delta/period + std::copysign(static_cast<T>(0.5), delta));
     return x1 - q * period;
 }
 
@@ -43,7 +43,7 @@ unwrap_core(
     p_out[0] = x0;
     for (npy_intp k = 1; k < n; ++k) {
         T x1 = get(p_x, x_stride, k);
-        if (!std::isfinite(x1)) {
+        if (!std::isfinite(x0) || !std::isfinite(x1)) {
             // inf or nan; output from here onwards is nan.
             for (npy_intp k1 = k; k1 < n; ++k1) {
                 set(p_out, out_stride, k1, static_cast<T>(NPY_NAN));
-- 
2.43.0


From e1fef1fe8dcf5f3dfc8640968ee8abccde961495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 16/30] fix: release the objects that are replaced in an object
 array passed as out

---
 src/cross/cross_gufunc.h               | 9 ++++++++-
 src/first/first_gufunc.h               | 2 +-
 src/minmax/minmax_gufunc.h             | 9 +++++++--
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 +-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..2905363 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,16 @@ cross3_core_calc_object(
         return;
     }
 
+    // The output array owns references to its current elements.
+    PyObject* old0 = get(p_out, out_stride, 0);
+    PyObject* old1 = get(p_out, out_stride, 1);
+    PyObject* old2 = get(p_out, out_stride, 2);
     set(p_out, out_stride, 0, out0);
     set(p_out, out_stride, 1, out1);
     set(p_out, out_stride, 2, out2);
+    Py_XDECREF(old0);
+    Py_XDECREF(old1);
+    Py_XDECREF(old2);
 }
 
 //
@@ -156,7 +163,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(p_out[0], out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..dd5f241 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -172,7 +172,7 @@ first_core_calc_object(
         }
     }
     Py_XINCREF(result);
-    *p_out = result;
+    Py_XSETREF(*p_out, result);
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..0014d91 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -68,8 +68,13 @@ static void minmax_object_core(
     }
     Py_INCREF(xmin);
     Py_INCREF(xmax);
+    // The output array owns references to its current elements.
+    PyObject *old_min = *p_out;
+    PyObject *old_max = get(p_out, out_stride, 1);
     *p_out = xmin;
     set(p_out, out_stride, 1, xmax);
+    Py_XDECREF(old_min);
+    Py_XDECREF(old_max);
 }
 
 
@@ -283,7 +288,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +339,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..2bb6bc3 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -227,7 +227,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*((PyObject **) out), diff);
     }
 }
 
-- 
2.43.0


From 56ca3a6f036a9b0942386859bfb80f903d0d8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 17/30] fix: tri_area: the area of a degenerate triangle is 0,
 not nan

---
 src/tri_area/tri_area_gufunc.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..af0a8e5 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -71,6 +71,11 @@ tri_area_common_calc(
     //
     T f1 = a + (b + c);
     T f2 = (c - (a - b));
+    if (f2 < 0) {
+        // Rounding errors in the lengths of the sides of a (nearly)
+        // degenerate triangle.
+        f2 = 0;
+    }
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
-- 
2.43.0


From b3a9ba8e631bdc9a0b5f8180de28fbb5baa1f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:04 +0000
Subject: [PATCH 18/30] fix: pmean, pmeanw: check for negative and special
 values for every p

---
 src/means/means_gufunc.c.src | 118 +++++++++++++++++------------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..04027fe 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -324,6 +324,34 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        // Get the min and max, and check for nan, inf and negative values.
+        for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
+            @ctype_in@ x = *(@ctype_in@ *)inner;
+            if (isnan(x)) {
+                has_nan = true;
+                break;
+            }
+            else if (isinf(x)) {
+                has_inf = true;
+            }
+            if (k == 0 || x > xmax) {
+                xmax = x;
+            }
+            if (k == 0 || x < xmin) {
+                xmin = x;
+            }
+            if (x < 0.0) {
+                has_neg = true;
+                break;
+            }
+            if (x == 0) {
+                has_zero = true;
+            }
+        }
+        if (has_neg || has_nan) {
+            *(@ctype_out@ *) out = NPY_NAN;
+            continue;
+        }
         // The following threshold for the switch to the small-p case was found
         // by experimenting with an assortment of input arrays.  Usually the
         // value where using the small-p approximation was better was between
@@ -332,7 +360,7 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
+            if (p != 0 && !has_zero && !has_inf) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -357,34 +385,6 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             hmean_@typename@_loop(args2, dims2, steps2, NULL);
             continue;
         }
-        // Get the min and max, and check for nan, inf and negative values.
-        for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
-            @ctype_in@ x = *(@ctype_in@ *)inner;
-            if (isnan(x)) {
-                has_nan = true;
-                break;
-            }
-            else if (isinf(x)) {
-                has_inf = true;
-            }
-            if (k == 0 || x > xmax) {
-                xmax = x;
-            }
-            if (k == 0 || x < xmin) {
-                xmin = x;
-            }
-            if (x < 0.0) {
-                has_neg = true;
-                break;
-            }
-            if (x == 0) {
-                has_zero = true;
-            }
-        }
-        if (has_neg || has_nan) {
-            *(@ctype_out@ *) out = NPY_NAN;
-            continue;
-        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
@@ -462,6 +462,35 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
         }
         @ctype_out@ sumw = 0;
 
+        // Get the min and max, and check for nan, inf and negative values.
+        for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
+                                                     inner1 += inner1_step) {
+            @ctype_in@ x = *(@ctype_in@ *) inner0;
+            if (isnan(x)) {
+                has_nan = true;
+                break;
+            }
+            else if (isinf(x)) {
+                has_inf = true;
+            }
+            if (k == 0 || x > xmax) {
+                xmax = x;
+            }
+            if (k == 0 || x < xmin) {
+                xmin = x;
+            }
+            if (x < 0.0) {
+                has_neg = true;
+                break;
+            }
+            if (x == 0) {
+                has_zero = true;
+            }
+        }
+        if (has_neg || has_nan) {
+            *(@ctype_out@ *) out = NPY_NAN;
+            continue;
+        }
         // The following threshold for the switch to the small-p case was found
         // by experimenting with an assortment of input arrays.  Usually the
         // value where using the small-p approximation was better was between
@@ -471,7 +500,7 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
+            if (p != 0 && !has_zero && !has_inf) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -499,35 +528,6 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
                                                         inner0_step, inner1_step);
             continue;
         }
-        // Get the min and max, and check for nan, inf and negative values.
-        for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
-                                                     inner1 += inner1_step) {
-            @ctype_in@ x = *(@ctype_in@ *) inner0;
-            if (isnan(x)) {
-                has_nan = true;
-                break;
-            }
-            else if (isinf(x)) {
-                has_inf = true;
-            }
-            if (k == 0 || x > xmax) {
-                xmax = x;
-            }
-            if (k == 0 || x < xmin) {
-                xmin = x;
-            }
-            if (x < 0.0) {
-                has_neg = true;
-                break;
-            }
-            if (x == 0) {
-                has_zero = true;
-            }
-        }
-        if (has_neg || has_nan) {
-            *(@ctype_out@ *) out = NPY_NAN;
-            continue;
-        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
-- 
2.43.0


From 0c6b5e17b8c61be227fd0b59219c0996ea1b6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 19/30] fix: vnorm: propagate inf and nan

---
 src/vnorm/vnorm_gufunc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..e943e91 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -78,12 +78,13 @@ static void vnorm_core_calc(
     for (int k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
-        if (abs_x > maxabsx) {
+        if (abs_x > maxabsx || std::isnan(abs_x)) {
             maxabsx = abs_x;
         }
     }
-    if (maxabsx == 0) {
-        p_out[0] = 0;
+    if (maxabsx == 0 || !std::isfinite(maxabsx)) {
+        // Either all the elements are 0, or there is an inf or nan.
+        p_out[0] = maxabsx;
     }
     else {
         U sum = 0;
-- 
2.43.0


From 06ad53cb0d3e5e02a093a146232ed35a6942473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 20/30] fix: do not use int for the indices of arrays with more
 than 2**31 elements

---
 src/gendot/gendotmodule.c                        | 8 ++++----
 src/issnan/issnan_ufunc.c.src                    | 2 +-
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 6 +++---
 src/tri_area/tri_area_gufunc.h                   | 2 +-
 src/vnorm/vnorm_gufunc.h                         | 8 ++++----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index ce154fe..147d9c1 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -73,7 +73,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -107,7 +107,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
                 memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
             }
             return;
@@ -157,7 +157,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -179,7 +179,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
diff --git a/src/issnan/issnan_ufunc.c.src b/src/issnan/issnan_ufunc.c.src
index ca75ae8..5c42b6d 100644
--- a/src/issnan/issnan_ufunc.c.src
+++ b/src/issnan/issnan_ufunc.c.src
@@ -87,7 +87,7 @@ static void issnan_@typename@_loop(char **args, const npy_intp *dimensions,
     char *pout = args[1];
     npy_intp n = dimensions[0];
 
-    for (int j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
+    for (npy_intp j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
         @ctype@ x = *((@ctype@ *) px);
         *((npy_bool *) pout) = issnan@suffix@(x);
     }
diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index fce80e2..67fb9c8 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -98,7 +98,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
                 || ((n == 1) && (x != left))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp.
-            for (int j = 0; j < nloops; ++j, pout += out_stride) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
             return;
@@ -112,7 +112,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
             r = (x - xpk) / (xpk_next - xpk);
         }
 
-        for (int j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
+        for (npy_intp j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
             @ctype@ fpk = *((@ctype@ *) (pfp + k*fp_stride));
             if (x == xpk) {
                 *((@ctype@ *) pout) = fpk;
@@ -125,7 +125,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         return;
     }
 
-    for (int j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
+    for (npy_intp j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
                                      pout += out_stride) {
         if (n < 1) {
             *((@ctype@ *) pout) = NPY_NAN;
diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af0a8e5..134793c 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -17,7 +17,7 @@ template<typename T>
 static T norm_diff(npy_intp n, T *p_p, const npy_intp p_strides[2], npy_intp i1, npy_intp i2)
 {
     T sumsq = 0.0;
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T x1 = get2d(p_p, p_strides, i1, k);
         T x2 = get2d(p_p, p_strides, i2, k);
         T dx = x2 - x1;
diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index e943e91..9c1d993 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -75,7 +75,7 @@ static void vnorm_core_calc(
         return;
     }
 
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
         if (abs_x > maxabsx || std::isnan(abs_x)) {
@@ -88,7 +88,7 @@ static void vnorm_core_calc(
     }
     else {
         U sum = 0;
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T current_x = get(p_x, x_stride, k);
             U abs_x = my_abs(current_x);
             if (isinf(order)) {
@@ -209,12 +209,12 @@ static void vdot_core_calc(
     T sum = 0;
     if (x_stride == sizeof(T) && y_stride == sizeof(T)) {
         // Give the compiler a chance to optimize the contiguous case.
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             sum += p_x[k] * p_y[k];
         }
     }
     else {
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T xk = get(p_x, x_stride, k);
             T yk = get(p_y, y_stride, k);
             sum += xk * yk;
-- 
2.43.0


From be4d2e9d1e52117ecb88c3cf95af914b1552655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:40 +0000
Subject: [PATCH 21/30] fix: gmean, gmeanw: -inf is a negative value

---
 src/means/means_gufunc.c.src | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 04027fe..31ff2b5 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -57,16 +57,16 @@
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += logx;
@@ -137,16 +137,16 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += w*logx;
-- 
2.43.0


From 513a4b28b54790260f7909ec37f17d1442f441b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 22/30] fix: bincount: handle an out array that overlaps an
 input

---
 ufunclab/_wrapped.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 8266cce..8b82dbc 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -47,10 +47,12 @@ def bad_integer_error(name, value):
 def _accumulate(gufunc, *args, out, axes):
     # The bincount gufuncs add to the values already in `out`.  NumPy does not
     # copy those values to the temporary array that it creates when `out` can
-    # not be passed directly to the inner loop, so handle that case here.
+    # not be passed directly to the inner loop, or when `out` overlaps an
+    # input, so handle those cases here.
     dtypes = tuple(a.dtype for a in args)
     loop_dtype = gufunc.resolve_dtypes(dtypes + (None,))[-1]
-    if out.dtype == loop_dtype and out.flags.aligned:
+    if (out.dtype == loop_dtype and out.flags.aligned
+            and not any(np.may_share_memory(a, out) for a in args)):
         return gufunc(*args, out=out, axes=axes)
     counts = gufunc(*args, out=np.zeros(out.shape, dtype=loop_dtype), axes=axes)
     return np.add(out, counts, out=out, casting='same_kind')
-- 
2.43.0


From e39fd1d6624a8d6f3b3768db57dd2ae7e05e565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:23 +0000
Subject: [PATCH 23/30] fix: one_hot: accept unsigned integers

---
 ufunclab/_wrapped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 8b82dbc..e35647f 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -387,7 +387,10 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    # The gufunc has only an intp loop.  An unsigned k that does not fit in an
+    # intp becomes negative, so it is still out of range, and the values 0 and
+    # 1 can be cast to any type.
+    return _one_hot(k.astype(np.intp), out=out, axis=axis, casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From 34b3cac35b0f748e45ff9d74f1ecd588046c435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:56 +0000
Subject: [PATCH 24/30] fix: hypot3: return nan if an argument is nan and none
 is inf

---
 src/hypot3/hypot3.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hypot3/hypot3.h b/src/hypot3/hypot3.h
index 5aab615..cdf79e5 100644
--- a/src/hypot3/hypot3.h
+++ b/src/hypot3/hypot3.h
@@ -21,6 +21,11 @@ T hypot3(T x, T y, T z)
     if (std::isinf(x) || std::isinf(y) || std::isinf(z)) {
         return std::numeric_limits<T>::infinity();
     }
+    // std::hypot(x, y, z) might also ignore a nan (e.g. hypot(0, 0, nan)
+    // is 0 in libstdc++).
+    if (std::isnan(x) || std::isnan(y) || std::isnan(z)) {
+        return std::numeric_limits<T>::quiet_NaN();
+    }
     return std::hypot(x, y, z);
 }
 
-- 
2.43.0


From 35686287d8fd61770b49be528f20ead62278717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:47 +0000
Subject: [PATCH 25/30] fix: stop the loop over a batch of object arrays when
 an exception is raised

---
 tools/cxxgen/gufuncgen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..96d4ae6 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,12 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if any((template_typecodes[vt] if isinstance(vt, int) else vt) == 'O'
+           for vt in var_types):
+        # Do not call Python code again after an exception.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From 82f66f415d206ea4d6a393e8cb7aaae32a7fa810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:21 +0000
Subject: [PATCH 26/30] fix: generated loops: count more than 2**31 - 1
 iterations without overflow

---
 tools/cxxgen/generate_ufunc_extmod.py | 2 +-
 tools/cxxgen/gufuncgen.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..3e86360 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -222,7 +222,7 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
                         print(f'    char *px{k} = args[{k}];', file=f)
                     print(f'    char *pout = args[{k+1}];', file=f)
                     print('    npy_intp n = dimensions[0];', file=f)
-                    print('    for (int j = 0; j < n; ++j,', file=f)
+                    print('    for (npy_intp j = 0; j < n; ++j,', file=f)
                     for k in range(nin):
                         print(' '*26, f'px{k} += steps[{k}],', file=f)
                     print(' '*26, f'pout += steps[{k+1}]) {{', file=f)
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 96d4ae6..685938d 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -312,7 +312,7 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (int j = 0; j < nloops; ++j, ')
+    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From fdf59c1bede49d0725b4fe4f6e78823dbb2b96aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 27/30] fix: pmean, pmeanw: intermediate overflow and
 underflow; long double precision

---
 src/means/means_gufunc.c.src | 37 ++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 31ff2b5..3d2a7c2 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -35,6 +35,8 @@
  * #ctype_in      = float, double, long double#
  * #ctype_out     = float, double, long double#
  * #funcsuffix    = f, , l#
+ * #powtype       = double, double, long double#
+ * #pow           = pow, pow, powl#
  */
 
 @ctype_out@ gmean_@typename@_1d(char *arg, const npy_intp n, const npy_intp step)
@@ -288,6 +290,33 @@ static void hmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
     }
 }
 
+//
+// Compute (x/scale)**p.  When abs(p) < 1, the power can be significant even
+// if the quotient overflows or underflows.
+//
+static @powtype@ scaled_power_@typename@(@ctype_in@ x, @ctype_out@ scale, @ctype_out@ p)
+{
+    @ctype_out@ r = x/scale;
+    if (isnormal(r) || fabs@funcsuffix@(p) >= 1) {
+        return @pow@(r, p);
+    }
+    return @pow@(x, p)/@pow@(scale, p);
+}
+
+//
+// Compute scale*m**(1/p).  The product can be in the range of the type
+// even if the power is not.
+//
+static @ctype_out@ scaled_root_@typename@(@ctype_out@ m, @ctype_out@ scale, @ctype_out@ p)
+{
+    @powtype@ t = @pow@(m, 1/p);
+    if (isnormal(t)) {
+        return scale*t;
+    }
+    t = @pow@(m, 0.5/p);
+    return (scale*t)*t;
+}
+
 static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
                                   const npy_intp* steps, void* data)
 {
@@ -413,9 +442,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += scaled_power_@typename@(x, scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scaled_root_@typename@(sum/dimensions[1], scale, p);
     }
 }
 
@@ -562,9 +591,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*scaled_power_@typename@(x, scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scaled_root_@typename@(sum/sumw, scale, p);
     }
 }
 
-- 
2.43.0


From 8ec74ff8464f461ccde6dec3ed26a420bf6608da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:47 +0000
Subject: [PATCH 28/30] fix: conv_template: make the documented :exclude: lines
 take effect

---
 tools/conv_template.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/tools/conv_template.py b/tools/conv_template.py
index 7e1fe82..92392bd 100644
--- a/tools/conv_template.py
+++ b/tools/conv_template.py
@@ -177,6 +177,16 @@ def parse_loop_header(loophead):
      [{'var1':'value1', 'var2', 'value2'[,...]}, ...]
 
     """
+    # Find any exclude variables.  An exclusion ends at the end of its line,
+    # so this must be done before the newlines are stripped.
+    excludes = []
+
+    for obj in exclude_re.finditer(loophead):
+        substr = loophead[obj.end():].partition('\n')[0]
+        ex_names = exclude_vars_re.findall(substr)
+        if ex_names:
+            excludes.append(dict(ex_names))
+
     # Strip out '\n' and leading '*', if any, in continuation lines.
     # This should not effect code previous to this change as
     # continuation lines were not allowed.
@@ -196,17 +206,6 @@ def parse_loop_header(loophead):
             raise ValueError(msg % (nsub, size, name, vals))
         names.append((name, vals))
 
-    # Find any exclude variables
-    excludes = []
-
-    for obj in exclude_re.finditer(loophead):
-        span = obj.span()
-        # find next newline
-        endline = loophead.find('\n', span[1])
-        substr = loophead[span[1]:endline]
-        ex_names = exclude_vars_re.findall(substr)
-        excludes.append(dict(ex_names))
-
     # generate list of dictionaries, one for each template iteration
     dlist = []
     if nsub is None:
@@ -214,7 +213,7 @@ def parse_loop_header(loophead):
     for i in range(nsub):
         tmp = {name: vals[i] for name, vals in names}
         dlist.append(tmp)
-    return dlist
+    return dlist, excludes
 
 
 replace_re = re.compile(r"@(\w+)@")
@@ -247,12 +246,16 @@ def parse_string(astr, env, level, line):
             newline = line + sub[4]
             code.append(replace_re.sub(replace, pref))
             try:
-                envlist = parse_loop_header(head)
+                envlist, excludes = parse_loop_header(head)
             except ValueError as e:
                 msg = "line %d: %s" % (newline, e)
                 raise ValueError(msg)
             for newenv in envlist:
                 newenv.update(env)
+                if any(all(newenv.get(name) == value
+                           for name, value in exclude.items())
+                       for exclude in excludes):
+                    continue
                 newcode = parse_string(text, newenv, newlevel, newline)
                 code.extend(newcode)
         suff = astr[oldend:]
-- 
2.43.0


From 44ca49122a77ae72fb42bb4e0027d810e2fd7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 29/30] fix: docstrings: the first line names the function and
 its parameters (pmeanw, searchsortedr, multivariate_logbeta, pearson_corr,
 wjaccard)

---
 src/corr/define_cxx_gufunc_extmod.py                 | 2 +-
 src/means/means_gufunc.c.src                         | 4 ++--
 src/multivariate_logbeta/define_cxx_gufunc_extmod.py | 2 +-
 src/searchsorted/searchsorted_gufunc.c.src           | 2 +-
 src/wjaccard/define_cxx_gufunc_extmod.py             | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/corr/define_cxx_gufunc_extmod.py b/src/corr/define_cxx_gufunc_extmod.py
index d7b402f..c0830f6 100644
--- a/src/corr/define_cxx_gufunc_extmod.py
+++ b/src/corr/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 PEARSON_CORR_DOCSTRING = """\
-pearson_corr(x, y, /, *)
+pearson_corr(x, y, /, ...)
 
 Pearson's product-moment correlation coefficient.
 
diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 3d2a7c2..c47571a 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -761,7 +761,7 @@ static struct PyModuleDef moduledef = {
 "If any value in x is negative, nan is returned.\n"
 
 #define PMEANW_DOCSTRING \
-"pmean(x, weights, p, /, ...)\n"                                           \
+"pmeanw(x, weights, p, /, ...)\n"                                          \
 "\n"                                                                       \
 "Weighted power mean (aka weighted generalized mean) of x.\n"              \
 "\n"
@@ -821,7 +821,7 @@ PyMODINIT_FUNC PyInit__means(void)
     }
 
     // Create the pmeanw ufunc.
-    if (ul_define_gufunc(module, "pmeanw", PMEAN_DOCSTRING, "(n),(n),()->()",
+    if (ul_define_gufunc(module, "pmeanw", PMEANW_DOCSTRING, "(n),(n),()->()",
                          PMEANW_NTYPES,
                          pmeanw_funcs, pmeanw_data, pmeanw_typecodes) == NULL) {
         Py_DECREF(module);
diff --git a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
index 072044f..fc4ca06 100644
--- a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
+++ b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
@@ -1,7 +1,7 @@
 from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 MULTIVARIATE_LOGBETA_DOCSTRING = """\
-multivariate_logebta(x, /, ...)
+multivariate_logbeta(x, /, ...)
 
 Compute the logarithm of the multivariate beta function B(x).
 
diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index c0f0a7b..dea31bc 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -508,7 +508,7 @@ static struct PyModuleDef moduledef = {
 "\n"
 
 #define SEARCHSORTEDR_DOCSTRING                                 \
-"searchsortedl(sortedarr, elements, /, ...)\n"                  \
+"searchsortedr(sortedarr, elements, /, ...)\n"                  \
 "\n"                                                            \
 "TODO...\n"                                                     \
 "\n"
diff --git a/src/wjaccard/define_cxx_gufunc_extmod.py b/src/wjaccard/define_cxx_gufunc_extmod.py
index 7392687..c29671d 100644
--- a/src/wjaccard/define_cxx_gufunc_extmod.py
+++ b/src/wjaccard/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 WJACCARD_DOCSTRING = """\
-wjaccard(x, y, /, *)
+wjaccard(x, y, /, ...)
 
 Weighted Jaccard index Jw(x, y):
 
-- 
2.43.0


From ac8862d320fdf6d2c795996bdf974252275569b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 30/30] fix: gendot: keep references to prodfunc and sumfunc,
 whose loops the gufunc calls

---
 src/gendot/gendotmodule.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 147d9c1..411779b 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -350,6 +350,13 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
     }
     // This memory is freed in the gufunc's dealloc method.
     gufunc->ptr = mem;
+    // The loops and the loop data belong to prodfunc and sumfunc, so these must
+    // not be deallocated before the gufunc.
+    gufunc->obj = PyTuple_Pack(2, (PyObject *) prodfunc, (PyObject *) sumfunc);
+    if (gufunc->obj == NULL) {
+        Py_DECREF(gufunc);
+        return NULL;
+    }
     return (PyObject *) gufunc;
 }
 
-- 
2.43.0

