From 734e0578461f2a3f76b8f8987b5bde2370ab16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 01/17] fix: accumulate the squares when the peaks statistics
 are recomputed

peaks_update_stats() reset the sum of squares to the square of the last
stored value, so the variance (and the method of moments) was wrong as soon
as a minimum or a maximum had been erased.
---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From f514b096149317dcbab7f8defcbf748ec2cf1c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 02/17] fix: exp and log of huge and infinite values

xexp() converted x / log(2) to an unsigned int without any bound: exp(-1e12)
was +inf, exp(2e9) was 0 and exp(+/-inf) was NaN. xlog(+inf) was NaN.
---
 src/xmath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..152c0fe 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x >= 1024 * LOG2) {
+        // exp(x) exceeds the largest double (and x / LOG2 may not fit in k)
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
@@ -344,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From 249ff38a1134e559b513d3f2f9692d9162b113f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 03/17] fix: reject NaN parameters in spot_init

---
 src/spot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..8382cd7 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,11 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    // these tests are also false for NaN
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q > 0.0) && (q < (1. - level)))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From d32db0e27c04724affcdab840b74369cc67e726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 04/17] fix: refuse a container without capacity or whose byte
 size overflows

max_excess = 0 and max_excess >= 2^61 were accepted: every push was then an
out-of-bounds write.
---
 src/ubend.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..fa8f32b 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,13 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // an empty container cannot store anything and the size (in bytes) of a
+    // too large one wraps around: in both cases the first push would write
+    // out of the allocated memory
+    if (capacity > 0 && capacity <= __SIZE_MAX__ / __SIZEOF_DOUBLE__) {
+        ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    }
     if (ubend->data) {
         return 0;
     }
-- 
2.43.0


From 1b3f136290f867ccf4e867237c058ffe4bfac1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:46 +0000
Subject: [PATCH 05/17] fix: do not write before a buffer of size zero

libspot_error(), libspot_version() and libspot_license() stored the final NUL
at index size - 1, i.e. just before the buffer when size is 0.
---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 8382cd7..4503a6a 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -173,7 +173,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && size > 0) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From a62d1fb2b5513d2919d1803c52d8ed93d60b6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 06/17] fix: make a new fit forget the previous one

spot_fit() reset the counters but kept the excesses of the previous fit (and
of the steps made since), which are relative to another threshold: the tail
was fitted on a mix of both. A fit that fails to compute the excess threshold
now also leaves the detector as it was (it only reset the counters).
---
 include/peaks.h |  7 +++++++
 include/tail.h  |  7 +++++++
 include/ubend.h |  7 +++++++
 src/peaks.c     |  8 ++++++++
 src/spot.c      | 11 +++++++----
 src/tail.c      |  6 ++++++
 src/ubend.c     |  6 ++++++
 7 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/include/peaks.h b/include/peaks.h
index 2a99670..9c03f17 100644
--- a/include/peaks.h
+++ b/include/peaks.h
@@ -23,6 +23,13 @@
  */
 int peaks_init(struct Peaks *peaks, unsigned long size);
 
+/**
+ * @brief Remove all the peaks (the storage is kept)
+ *
+ * @param peaks Peaks instance
+ */
+void peaks_reset(struct Peaks *peaks);
+
 /**
  * @brief Free the peaks structure
  *
diff --git a/include/tail.h b/include/tail.h
index e876ceb..64072be 100644
--- a/include/tail.h
+++ b/include/tail.h
@@ -32,6 +32,13 @@
  */
 int tail_init(struct Tail *tail, unsigned long size);
 
+/**
+ * @brief Forget all the data (the storage is kept)
+ *
+ * @param tail Tail instance
+ */
+void tail_reset(struct Tail *tail);
+
 /**
  * @brief Free the tail structure
  *
diff --git a/include/ubend.h b/include/ubend.h
index 0852761..dc489a9 100644
--- a/include/ubend.h
+++ b/include/ubend.h
@@ -37,6 +37,13 @@
  */
 int ubend_init(struct Ubend *ubend, unsigned long capacity);
 
+/**
+ * @brief Empty the container (the storage is kept)
+ *
+ * @param ubend
+ */
+void ubend_reset(struct Ubend *ubend);
+
 /**
  * @param ubend
  */
diff --git a/src/peaks.c b/src/peaks.c
index 97010d7..31208f0 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -17,6 +17,14 @@ int peaks_init(struct Peaks *peaks, unsigned long size) {
     return ubend_init(&peaks->container, size);
 }
 
+void peaks_reset(struct Peaks *peaks) {
+    peaks->e = 0.0;
+    peaks->e2 = 0.0;
+    peaks->min = _NAN;
+    peaks->max = _NAN;
+    ubend_reset(&(peaks->container));
+}
+
 void peaks_free(struct Peaks *peaks) {
     peaks->e = _NAN;
     peaks->e2 = _NAN;
diff --git a/src/spot.c b/src/spot.c
index 4503a6a..a33669a 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -79,10 +79,6 @@ void spot_free(struct Spot *spot) {
 }
 
 int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
-    // total number of excesses
-    spot->Nt = 0;
-    spot->n = size;
-
     // compute excess threshold
     double et;
     if (spot->low) {
@@ -97,6 +93,13 @@ int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     // here we know that et is not NaN
     spot->excess_threshold = et;
 
+    // total number of excesses
+    spot->Nt = 0;
+    spot->n = size;
+    // forget the excesses of a previous fit (and of the following steps):
+    // they are relative to another threshold and Nt does not count them
+    tail_reset(&(spot->tail));
+
     // fill the tail
     for (unsigned long i = 0; i < size; ++i) {
         // positive excess
diff --git a/src/tail.c b/src/tail.c
index 6fcf574..c540b93 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -21,6 +21,12 @@ int tail_init(struct Tail *tail, unsigned long size) {
     return peaks_init(&(tail->peaks), size);
 }
 
+void tail_reset(struct Tail *tail) {
+    tail->gamma = _NAN;
+    tail->sigma = _NAN;
+    peaks_reset(&(tail->peaks));
+}
+
 void tail_free(struct Tail *tail) {
     tail->gamma = _NAN;
     tail->sigma = _NAN;
diff --git a/src/ubend.c b/src/ubend.c
index fa8f32b..d6a63e1 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -27,6 +27,12 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     return -ERR_MEMORY_ALLOCATION_FAILED;
 }
 
+void ubend_reset(struct Ubend *ubend) {
+    ubend->cursor = 0;
+    ubend->filled = 0;
+    ubend->last_erased_data = _NAN;
+}
+
 void ubend_free(struct Ubend *ubend) {
     ubend->cursor = 0;
     ubend->capacity = 0;
-- 
2.43.0


From b96075cafd52f445a0943ba720ecce19ff5b7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 07/17] fix: the probability beyond the end of a bounded tail
 is zero

When gamma < 0 the tail stops at -sigma/gamma: tail_probability() returned NaN
for every greater value, i.e. for the most extreme ones.
---
 src/tail.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tail.c b/src/tail.c
index c540b93..ee35c5c 100644
--- a/src/tail.c
+++ b/src/tail.c
@@ -45,6 +45,10 @@ double tail_probability(struct Tail const *tail, double s, double d) {
         return s * xexp(-d / tail->sigma);
     } else {
         double r = d * (tail->gamma / tail->sigma);
+        if (tail->gamma < 0.0 && r <= -1.0) {
+            // beyond the end of a bounded tail
+            return 0.0;
+        }
         return s * xpow(1.0 + r, -1.0 / tail->gamma);
     }
 }
-- 
2.43.0


From 305dcd58efb6e0d0b8db24841b10ad1cc048df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 08/17] fix: no quantile can be computed from less than 5 data

p2_quantile() returned 0.0, whatever the data: spot_fit() succeeded with an
arbitrary excess threshold. It returns NaN so that spot_fit() fails with
-ERR_EXCESS_THRESHOLD_IS_NAN.
---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..2713aa6 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -116,7 +116,8 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     double qp;
 
     if (size < 5) {
-        return 0.0;
+        // not enough data to initialize the markers
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From 98b67e72c6de15423d1e57becc87d8e572d0137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:22 +0000
Subject: [PATCH 09/17] fix: leave no dangling pointer nor uninitialized
 threshold behind

spot_free() kept the address of the released memory, so calling it again
released it twice. When the allocation failed spot_init() left both thresholds
uninitialized.
---
 src/spot.c  | 5 ++---
 src/ubend.c | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index a33669a..3bb6f25 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -50,6 +50,8 @@ int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
     // no values yet
     spot->n = 0;
     spot->Nt = 0;
+    spot->anomaly_threshold = _NAN;
+    spot->excess_threshold = _NAN;
 
     // in all cases, tail is init to
     // ensure the struct is fully initialized
@@ -57,9 +59,6 @@ int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
         return -ERR_MEMORY_ALLOCATION_FAILED;
     }
 
-    spot->anomaly_threshold = _NAN;
-    spot->excess_threshold = _NAN;
-
     return 0;
 }
 
diff --git a/src/ubend.c b/src/ubend.c
index d6a63e1..ee31e31 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -40,6 +40,8 @@ void ubend_free(struct Ubend *ubend) {
     ubend->last_erased_data = _NAN;
     if (ubend->data) {
         xfree(ubend->data);
+        // the memory must not be used (or released) anymore
+        ubend->data = 0x0;
     }
 }
 
-- 
2.43.0


From e74ee3b996dc6dd0f90f51250fc89d39ab545b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 10/17] fix: fit a python detector from any sequence and report
 its errors

PySequence_Fast() returns a tuple as is, and PyList_Size() of a tuple is -1:
Spot.fit(tuple) crashed. Items that are not numbers and errors of spot_fit()
ended in a SystemError (an exception was set while a result was returned) and
the intermediate list was never released.
---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..cbcc5f3 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // always a list (PySequence_Fast may return a tuple)
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -137,11 +138,21 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     unsigned long size = (unsigned long)PyList_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
-    double *x = malloc(size * sizeof(double));
+    double *x = malloc((size > 0 ? size : 1) * sizeof(double));
+    if (x == NULL) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if (PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 63e53a68408891aedb74cbdcd62081f5466fd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:03 +0000
Subject: [PATCH 11/17] fix: raise when a python argument is not a number

Spot.step(), Spot.quantile() and Spot.probability() ignored the conversion
error, so the detector was fed with -1.0 (and python raised a SystemError).
---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index cbcc5f3..dee946d 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -173,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -185,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -198,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From 99814855f37195dee88950743add278b0a48626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:24 +0000
Subject: [PATCH 12/17] fix: release the memory of the python detectors

The object itself was never released, and calling __init__ again lost the
memory of the previous tail.
---
 python/libspotmodule.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index dee946d..5a436a2 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,19 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
+    struct Spot spot;
+    int result = spot_init(&spot, q, low, discard_anomalies, level,
                            max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // __init__ may be called again: release the previous tail (if any)
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
@@ -265,7 +270,12 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // release the object itself (and its reference to the type, as it is
+    // allocated on the heap). PyTypeObject is opaque with the Limited API.
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free(self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From cc8c83714723376611471442528c05da068477c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 13/17] fix: fit a javascript detector from a view on a larger
 buffer

The whole underlying buffer was copied to the heap (beyond the memory reserved
for the view), and the memory was lost when the fit failed.
---
 wasm/index.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..3a2f8fa 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -198,14 +198,18 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    // (data may be a view on a part of a larger buffer)
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From 37a9651b28fa6d7838c99279bfc2947401d469a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 14/17] fix: never release an uninitialized pointer from
 javascript

When spot_init() rejects the parameters it does not touch the structure, but
the finalizer still calls spot_free() on it.
---
 wasm/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wasm/main.c b/wasm/main.c
index dc8ed65..4d90047 100644
--- a/wasm/main.c
+++ b/wasm/main.c
@@ -3,7 +3,8 @@
 #include "stdlib.h"
 #include <emscripten.h>
 
-struct Spot *spot_new(void) { return malloc(sizeof(struct Spot)); }
+// zero-initialized: spot_free may be called even if spot_init has failed
+struct Spot *spot_new(void) { return calloc(1, sizeof(struct Spot)); }
 
 __SIZE_TYPE__ spot_size(void) { return sizeof(struct Spot); }
 
-- 
2.43.0


From 40aeaa7944fdef003b64fe8d7802c6be710337dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 15/17] fix: a tail made of tiny excesses is not degenerate

The likelihood equation has a trivial root at zero. When the excesses are tiny
(below 1e-8 or so), it holds up to rounding errors at the end of the search
interval: this root was accepted, gave gamma = 0 and sigma = -0 with an infinite
likelihood, and the anomaly threshold collapsed on the excess threshold.
---
 src/estimator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estimator.c b/src/estimator.c
index 700dd2d..e776c19 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -46,11 +46,15 @@ static double grimshaw_simplified_log_likelihood(double x_star,
                                                  struct Peaks const *peaks,
                                                  double *gamma,
                                                  double *sigma) {
-    if (x_star == 0) {
+    *gamma = 0.0;
+    if (x_star != 0) {
+        *gamma = grimshaw_v(x_star, peaks) - 1;
+    }
+    if (*gamma > -BRENT_DEFAULT_EPSILON && *gamma < BRENT_DEFAULT_EPSILON) {
+        // trivial root: such a gamma is only made of rounding errors
         *gamma = 0.0;
         *sigma = peaks_mean(peaks);
     } else {
-        *gamma = grimshaw_v(x_star, peaks) - 1;
         *sigma = *gamma / x_star;
     }
     return log_likelihood(peaks, *gamma, *sigma);
-- 
2.43.0


From fd7306eea9aa0ee32a3d5c3bb65f02f1055dae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:06 +0000
Subject: [PATCH 16/17] fix: recompute the tail statistics that overflowed when
 a peak is evicted

The accumulators e and e2 stayed infinite or became NaN (inf - inf) after
the eviction of a huge value that was not an extreme of the container.
---
 src/peaks.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/peaks.c b/src/peaks.c
index 31208f0..79f886b 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -86,11 +86,12 @@ void peaks_push(struct Peaks *peaks, double x) {
     if (!is_nan(erased)) {
         peaks->e -= erased;
         peaks->e2 -= erased * erased;
-        if ((erased <= peaks->min) || (erased >= peaks->max)) {
+        if ((erased <= peaks->min) || (erased >= peaks->max) ||
+            is_nan(peaks->e2 - peaks->e2)) {
             /* here we have to loop in the container to ensure having
             the right stats (in particular min and max). However, we
             also update e and e2 (the in/decrements may create precision
-            errors) */
+            errors, and they cannot leave an overflowed accumulator) */
             peaks_update_stats(peaks);
         }
     }
-- 
2.43.0


From ca964bdc6f1a7cfb09a9f73f95fc77fadc82daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 17/17] fix: raise instead of crashing when a python detector
 is not initialized

---
 python/libspotmodule.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 5a436a2..11f6a87 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -128,6 +128,16 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
     return 0;
 }
 
+// without a successful __init__ (subclass that does not call it, __new__ only)
+// the object has no container to store the excesses
+static int Spot_ready(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "Spot has not been initialized");
+        return 0;
+    }
+    return 1;
+}
+
 PyDoc_STRVAR(Spot_fit_doc,
              "fit($self, data)\n--\n\n"
              "Compute the first excess and anomaly thresholds based "
@@ -158,6 +168,10 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         }
     }
     Py_DECREF(seq);
+    if (!Spot_ready(self)) {
+        free(x);
+        return NULL;
+    }
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -182,6 +196,10 @@ static PyObject *Spot_step(Spot *self, PyObject *x) {
         return NULL;
     }
 
+    if (!Spot_ready(self)) {
+        return NULL;
+    }
+
     // libspot API call
     int result = spot_step(&(self->_spot), z);
 
-- 
2.43.0

