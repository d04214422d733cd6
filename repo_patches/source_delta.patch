From 1af3d37580a7e47fa21370c677840a39e72b92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 01/29] fix: repeated persistent() on a set evolver returned
 the original set

The first persistent() call cleans the underlying map evolver, after which the
set evolver considered itself clean and handed out the set it was created from.
---
 pyrsistent/_checked_types.py | 2 +-
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..15ec003 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 5142fd9980fb6b7d70cd35c8d03906d572c8bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 02/29] fix: repeated persistent() on a CheckedPMap evolver
 returned the original map

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 15ec003..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
-- 
2.43.0


From 019d9560efd84bd2f4b74646038c9f0abeb142df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 03/29] fix: pdeque slicing with bounds outside of the deque

Bounds were reduced modulo the length, so d[0:len(d)] was empty, bounds past
either end selected the wrong elements and slicing an empty deque raised
ZeroDivisionError.
---
 pyrsistent/_pdeque.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..1cfda17 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -323,13 +323,8 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            start, stop, _ = index.indices(self._length)
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-- 
2.43.0


From b5599f182f9a65e763f874fb2cd9b455168bcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 04/29] fix: pdeque.rotate() with more steps than there are
 elements

---
 pyrsistent/_pdeque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 1cfda17..8c4a64c 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,10 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if abs(steps) > self._length:
+            # More than a full turn (also of an empty deque), only the remainder matters
+            steps = steps % self._length if self._length else 0
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From 8cebf05bb4a141e015b1711e5481d72e80ce83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 05/29] fix: pdeque.remove() and pdeque.reverse() lost the
 maximum length

---
 pyrsistent/_pdeque.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 8c4a64c..cba1915 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
-- 
2.43.0


From 79098d8740268dc726a835fec4427806b024c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 06/29] fix: pdeque with maxlen=0 kept its initial elements

---
 pyrsistent/_pdeque.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index cba1915..de1981b 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -361,7 +361,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[-maxlen:] if maxlen else ()
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From 2f12f50a1ebf8e7a5ed381d1fa0527e63a07686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 07/29] fix: plist slices with a negative start raised
 IndexError

---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..b6c355b 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -167,7 +167,7 @@ class _PListBase(object):
         # very inefficient! Use a PVector instead!
 
         if isinstance(index, slice):
-            if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
+            if index.start is not None and index.start >= 0 and index.stop is None and (index.step is None or index.step == 1):
                 return self._drop(index.start)
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
-- 
2.43.0


From af07e64ab09ede4a97ac04ac5dad71e1f054528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:07 +0000
Subject: [PATCH 08/29] fix: checked vectors and sets could be created with
 unchecked elements

Creating a CheckedPVector from a pure Python pvector, or a CheckedPSet from a
pmap, skipped all type and invariant checks. The shortcut is only meant for the
evolvers, which have checked the elements already.
---
 pyrsistent/_checked_types.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..bb78fb7 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -291,9 +291,6 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
-            return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
-
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
 
     def set(self, key, value):
@@ -348,7 +345,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = PythonPVector.__new__(self._destination_class, pv._count, pv._shift, pv._root, pv._tail)
                 self._reset(result)
 
             return result
@@ -377,9 +374,6 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
-
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
             evolver.add(e)
@@ -428,7 +422,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = PSet.__new__(self._destination_class, self._pmap_evolver.persistent())
 
             return self._original_pset
 
-- 
2.43.0


From 55dc23d85e7f0bd58e0f88f3e9aa78707b2aa582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:08 +0000
Subject: [PATCH 09/29] fix: type declarations of checked collections were only
 inherited one level

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index bb78fb7..9390be5 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From 14dc12de6b06cbb7a52a15a29a793100f3abf14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:08 +0000
Subject: [PATCH 10/29] fix: equal psets could have different hashes

The hash of the underlying map was used, including its values. They are not part
of the set and differ when the set is the key set of a pmap. Use the hash of the
corresponding frozenset, which the pset compares equal to.
---
 pyrsistent/_pset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..5ae480b 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -54,7 +54,7 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        return hash(frozenset(self))
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 34929d6845a204052a0b9e318e4220b8b00648ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:08 +0000
Subject: [PATCH 11/29] fix: hash of a pmap with the key '_cached_hash'

An unset slot falls through to __getattr__, which looks up the key.
---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..75eac1d 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -247,7 +248,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -270,7 +271,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From 2153a14597a3edf4c7eea0932a61619149b27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 12/29] fix: hash of C vectors differed from that of equal pure
 Python vectors

A CheckedPVector is a pure Python vector and compares equal to a C vector with
the same elements, so both have to use the same hash.
---
 pvectorcmodule.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..7e0bfeb 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -273,26 +273,22 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
+  // Same hash as the pure Python implementation, the two compare equal
+  PyObject *tuple;
+  PyObject *list = PVector_toList(self);
+  if(list == NULL) {
+    return -1;
   }
 
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  tuple = PyList_AsTuple(list);
+  Py_DECREF(list);
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  Py_hash_t hash = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return hash;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From e2ba8b9e3fcd1b3f039d46bd78d8f078abbb2e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 13/29] fix: C pvector.extend() leaked the new vector when the
 iterable raised

---
 pvectorcmodule.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 7e0bfeb..bbafaef 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -859,7 +859,13 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred()) {
+        if (!PyErr_ExceptionMatches(PyExc_StopIteration)) {
+          Py_DECREF(newVec);
+          return NULL;
+        }
+        PyErr_Clear();
+      }
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From babe583411acfa12829a1729166e67994073171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 14/29] fix: C pvector.delete() rejected a stop of None, the
 documented default

---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index bbafaef..1c912aa 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1020,7 +1020,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
     index += self->count;
   }
 
-  if (stop_obj != NULL) {
+  if (stop_obj != NULL && stop_obj != Py_None) {
     if (PyIndex_Check(stop_obj)) {
       stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
       if (stop == -1 && PyErr_Occurred()) {
-- 
2.43.0


From d185658826dc4c3dbc94b3adb82925d68c761ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 15/29] fix: C pvector.remove() hid exceptions raised when
 comparing elements

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 1c912aa..6467a32 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1074,7 +1074,9 @@ static PyObject* PVector_remove(PVector *self, PyObject *args) {
     return internalDelete(self, index, NULL);
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  if(PyErr_ExceptionMatches(PyExc_ValueError)) {
+    PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  }
   return NULL;
 }
 
-- 
2.43.0


From e5562cb25dbbf4826fee671cf9a773a259a1fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 16/29] fix: use after free when a vector iterator is used
 while its vector is released

---
 pvectorcmodule.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 6467a32..2519041 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1173,8 +1173,9 @@ static PyObject *PVectorIter_next(PVectorIter *it) {
         return item;
     }
 
-    Py_DECREF(seq);
+    // May run arbitrary code, including code using this iterator
     it->it_seq = NULL;
+    Py_DECREF(seq);
     return NULL;
 }
 
-- 
2.43.0


From 05024cdf93a020834691e1de85f2ba757d082c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 17/29] fix: use after free when releasing an element uses the
 C evolver it was in

The evolver released elements, its vectors and its list while it still referred
to them, and iterated over user supplied iterables with an unprotected reference to
its list. Code run by a destructor or iterator could then use freed memory.
---
 pvectorcmodule.c | 80 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 2519041..839eaf1 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1318,7 +1318,15 @@ static PyObject *PVectorEvolver_append(PVectorEvolver *self, PyObject *args) {
 }
 
 static PyObject *PVectorEvolver_extend(PVectorEvolver *self, PyObject *args) {
-  if (PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, args) < 0) {
+  // Iterating may run arbitrary code, including code that replaces the list of this evolver
+  PyObject *items = PySequence_List(args);
+  if (items == NULL) {
+    return NULL;
+  }
+
+  int result = PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, items);
+  Py_DECREF(items);
+  if (result < 0) {
     return NULL;
   }
 
@@ -1355,7 +1363,12 @@ static PyObject *PVectorEvolver_subscript(PVectorEvolver *self, PyObject *item)
   return NULL;
 }
 
-static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value) {
+/*
+ The reference to an element that was replaced in an already dirty node is handed over in
+ 'replaced'. It has to be released when the vector is consistent again since
+ that may run arbitrary code.
+*/
+static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value, PyObject** replaced) {
   VNode* resultNode;
   debug("doSetWithDirty(): level == %i\n", level);
   if(level == 0) {
@@ -1368,7 +1381,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
     } else {
       resultNode = node;
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
+      *replaced = resultNode->items[position & BIT_MASK];
       resultNode->items[position & BIT_MASK] = value;
     }
   } else {
@@ -1381,7 +1394,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
 
     Py_ssize_t index = (position >> level) & BIT_MASK;
     VNode* oldNode = (VNode*)resultNode->items[index];
-    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value);
+    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value, replaced);
 
     if(resultNode->items[index] != oldNode) {
       // Node replaced, drop references to old node
@@ -1441,9 +1454,18 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
+  PVector *originalVector = self->originalVector;
+  PVector *newVector = self->newVector;
   self->originalVector = temp2;
   self->newVector = self->originalVector;
+
+  // Releasing what the evolver used so far may run arbitrary code, including code using this evolver
+  if(newVector != originalVector) {
+    cleanVector(newVector);
+    Py_DECREF(newVector);
+  }
+
+  Py_DECREF(originalVector);
   return 0;
 }
 
@@ -1465,23 +1487,23 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
+        PyObject *replaced = NULL;
         if(position < TAIL_OFF(self->newVector)) {
-          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
+          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value, &replaced);
         } else {
-          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
+          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value, &replaced);
         }
 
+        Py_XDECREF(replaced);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals the reference, and may run arbitrary code when releasing the old element
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1499,24 +1521,32 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 }
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
-  PVector *resultVector;
-  if(self->newVector != self->originalVector) {
-    cleanVector(self->newVector);
-    Py_DECREF(self->originalVector);
+  PVector *originalVector = self->originalVector;
+  PVector *newVector = self->newVector;
+  PyObject *appendList = self->appendList;
+  PVector *resultVector = newVector;
+
+  if(newVector != originalVector) {
+    cleanVector(newVector);
   }
 
-  resultVector = self->newVector;
+  if(PyList_GET_SIZE(appendList)) {
+    resultVector = (PVector*)PVector_extend(newVector, appendList);
+  }
+
+  initializeEvolver(self, resultVector, resultVector != newVector ? NULL : appendList);
+  Py_INCREF(resultVector);
+
+  // Releasing what the evolver used so far may run arbitrary code, including code using this evolver
+  if(newVector != originalVector) {
+    Py_DECREF(originalVector);
+  }
 
-  if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
-    resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
-    self->appendList = NULL;
+  if(resultVector != newVector) {
+    Py_DECREF(newVector);
+    Py_DECREF(appendList);
   }
 
-  initializeEvolver(self, resultVector, self->appendList);
-  Py_INCREF(resultVector);  
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From c44044ee820d32d49445d342fcee82bd38677cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 18/29] fix: garbage collection could destroy objects still in
 use

The elements of trie nodes shared between several vectors were reported to the
garbage collector once per vector, although the node only holds one reference. If those
vectors were part of garbage cycles an element still referenced from elsewhere
was considered to be garbage too and was cleared. Only report the elements of
nodes that exclusively belong to the vector or evolver.
---
 pvectorcmodule.c | 74 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 839eaf1..42bfb8b 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -85,6 +85,15 @@ static PyMemberDef PVector_members[] = {
 #define INC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)++)
 #define DEC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)--)
 
+// Indicate that a node is "dirty" (has been updated by the evolver)
+// by setting the MSB of the refCount. This will be cleared when
+// creating a pvector from the evolver (cleaning it).
+#define DIRTY_BIT 0x80000000
+#define REF_COUNT_MASK (~DIRTY_BIT)
+#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
+#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
+#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
+
 static VNode* allocNode(void) {
   if(nodeCache.size > 0) {
     nodeCache.size--;
@@ -421,16 +430,41 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(VNode *node, int level, visitproc visit, void *arg) {
+    int i, result;
+
+    // The references held by a node that is shared between several vectors must not be
+    // reported by each one of those, the collector would then count them multiple times and may
+    // take objects that are still in use for garbage.
+    if((NODE_REF_COUNT(node) & REF_COUNT_MASK) != 1) {
+      return 0;
+    }
+
+    for(i = 0; i < BRANCH_FACTOR; i++) {
+      if(node->items[i] != NULL) {
+        if(level > 0) {
+          result = traverseNode((VNode*)node->items[i], level - SHIFT, visit, arg);
+          if(result) {
+            return result;
+          }
+        } else {
+          Py_VISIT((PyObject*)node->items[i]);
+        }
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(o->tail, 0, visit, arg);
+    if(result) {
+      return result;
+    }
+
+    return traverseNode(o->root, o->shift, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -510,7 +544,7 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Does not own its nodes until it has been cleaned, not tracked by the garbage collector until then
   return newVector;
 }
 
@@ -1248,15 +1282,6 @@ static PyTypeObject PVectorEvolverType = {
 };
 
 
-// Indicate that a node is "dirty" (has been updated by the evolver)
-// by setting the MSB of the refCount. This will be cleared when
-// creating a pvector from the evolver (cleaning it).
-#define DIRTY_BIT 0x80000000
-#define REF_COUNT_MASK (~DIRTY_BIT)
-#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
-#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
-#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
-
 
 static void cleanNodeRecursively(VNode *node, int level) {
   debug("Cleaning recursively node=%p, level=%u\n", node, level);
@@ -1528,6 +1553,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
 
   if(newVector != originalVector) {
     cleanVector(newVector);
+    PyObject_GC_Track((PyObject*)newVector);
   }
 
   if(PyList_GET_SIZE(appendList)) {
@@ -1565,9 +1591,23 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
 }
 
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
+  Py_VISIT(self->originalVector);
   if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
+      // Only the dirty nodes belong to the evolver, the rest is that of the original vector
+      int result;
+      if(IS_DIRTY(self->newVector->tail)) {
+        result = traverseNode(self->newVector->tail, 0, visit, arg);
+        if(result) {
+          return result;
+        }
+      }
+
+      if(IS_DIRTY(self->newVector->root)) {
+        result = traverseNode(self->newVector->root, self->newVector->shift, visit, arg);
+        if(result) {
+          return result;
+        }
+      }
   }
   Py_VISIT(self->appendList);
   return 0;
-- 
2.43.0


From 9b611f2c9f7ceed640a407f9efdea2d9ef308db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:18 +0000
Subject: [PATCH 19/29] fix: vector evolvers were not dirty after deleting
 elements

With the C extension any delete, and with pure Python deleting all elements,
left an evolver that claimed to be unmodified.
---
 pvectorcmodule.c       | 2 +-
 pyrsistent/_pvector.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 42bfb8b..99dbbfa 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1482,7 +1482,7 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
   PVector *originalVector = self->originalVector;
   PVector *newVector = self->newVector;
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  self->newVector = rawCopyPVector(temp2);
 
   // Releasing what the evolver used so far may run arbitrary code, including code using this evolver
   if(newVector != originalVector) {
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..8afbfae 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -246,6 +246,8 @@ class PythonPVector(object):
                 l.extend(self._extra_tail)
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
+                # Remain dirty also when there are no elements left
+                self._dirty_nodes[None] = True
 
             del self._extra_tail[key]
 
-- 
2.43.0


From d4d13174d0a7abf4ab1d88b80b6c424866844ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:20 +0000
Subject: [PATCH 20/29] fix: custom serializers of checked collections were not
 inherited

The default serializer was put in every subclass that did not define one itself,
hiding the one of its base class.
---
 pyrsistent/_checked_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 9390be5..5dd8bb2 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -177,7 +177,8 @@ class _CheckedTypeMeta(ABCMeta):
                 return value.serialize()
             return value
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
@@ -444,7 +445,8 @@ class _CheckedMapTypeMeta(type):
 
             return sk, sv
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
-- 
2.43.0


From c9a020b7905f3f33cbd502ce0e762d63d8804c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:57 +0000
Subject: [PATCH 21/29] fix: psets did not support built-in sets as left
 operand, nor as right operand of ^

pset ^ set is computed as (pset - set) | (set - pset) by the Set mixin,
but PSet did not take over the mixin's reflected operators, so
set - pset raised TypeError.
---
 pyrsistent/_pset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 5ae480b..17c8e3a 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -187,6 +187,11 @@ class PSet(Generic[T_co]):
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
 
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
+
     issubset = __le__
     issuperset = __ge__
     union = __or__
-- 
2.43.0


From 7433fd1fca7e7667433603fe6e8fc581cf08134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:12 +0000
Subject: [PATCH 22/29] fix: key sets of records and checked maps could not be
 updated

keys() returns a pset on top of the map itself. Updating that set went
through the evolver of the record or checked map, which applied its field,
type and invariant checks to the set's elements.
---
 pyrsistent/_pset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 17c8e3a..1230ee9 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -1,7 +1,7 @@
 from collections.abc import Set, Hashable
 import sys
 from typing import TypeVar, Generic
-from pyrsistent._pmap import pmap
+from pyrsistent._pmap import PMap, pmap
 
 T_co = TypeVar('T_co', covariant=True)
 
@@ -115,7 +115,9 @@ class PSet(Generic[T_co]):
 
         def __init__(self, original_pset):
             self._original_pset = original_pset
-            self._pmap_evolver = original_pset._map.evolver()
+            # Not _map.evolver(), the key set of a record or checked map is not bound to
+            # the declarations of that map.
+            self._pmap_evolver = PMap._Evolver(original_pset._map)
 
         def add(self, element):
             self._pmap_evolver[element] = True
-- 
2.43.0


From 9e27152bf6b64a6e86eadb7dd0aff750e247c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:14 +0000
Subject: [PATCH 23/29] fix: pset() of many elements no longer crowds them into
 eight buckets

---
 pyrsistent/_pset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 1230ee9..605c48b 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -62,7 +62,8 @@ class PSet(Generic[T_co]):
 
     @classmethod
     def _from_iterable(cls, it, pre_size=8):
-        return PSet(pmap(dict((k, True) for k in it), pre_size=pre_size))
+        elements = dict((k, True) for k in it)
+        return PSet(pmap(elements, pre_size=max(pre_size, 2 * len(elements))))
 
     def add(self, element):
         """
-- 
2.43.0


From 2f87b91ee7a052f4b066966b15f991117f8e0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:15 +0000
Subject: [PATCH 24/29] fix: immutable() classes show members that contain the
 text 'ImmutableBase' unaltered

---
 pyrsistent/_immutable.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyrsistent/_immutable.py b/pyrsistent/_immutable.py
index d23deca..f1f813a 100644
--- a/pyrsistent/_immutable.py
+++ b/pyrsistent/_immutable.py
@@ -65,9 +65,6 @@ def immutable(members='', name='Immutable', verbose=False):
 class {class_name}(namedtuple('ImmutableBase', [{quoted_members}])):
     __slots__ = tuple()
 
-    def __repr__(self):
-        return super({class_name}, self).__repr__().replace('ImmutableBase', self.__class__.__name__)
-
     def set(self, **kwargs):
         if not kwargs:
             return self
-- 
2.43.0


From 4c60da0ab494330bd9132edef16efbdd25e76138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:07 +0000
Subject: [PATCH 25/29] fix: let the other operand answer when a Python vector
 is compared with an object without length

---
 pyrsistent/_pvector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 8afbfae..973d11b 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -82,7 +82,13 @@ class PythonPVector(object):
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self is other or (hasattr(other, '__len__') and self._count == len(other)) and compare_pvector(self, other, operator.eq)
+        if self is other:
+            return True
+
+        if isinstance(other, PVector) and self._count != len(other):
+            return False
+
+        return compare_pvector(self, other, operator.eq)
 
     def __gt__(self, other):
         return compare_pvector(self, other, operator.gt)
-- 
2.43.0


From 0446004249a93d7a26ba35e165a1d2c5b751e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:08 +0000
Subject: [PATCH 26/29] fix: let vectors match sequence patterns like the other
 sequences

Vectors are registered as sequences but, unlike lists and deques, did not
match 'case [a, *rest]': registering does not set the flag of a C type, and
PythonPVector was registered as PVector before PVector as Sequence.
---
 pvectorcmodule.c       | 2 +-
 pyrsistent/_pvector.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 99dbbfa..8dd3d19 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -653,7 +653,7 @@ static PyTypeObject PVectorType = {
   0,                                          /* tp_getattro    */
   0,                                          /* tp_setattro    */
   0,                                          /* tp_as_buffer   */
-  Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC,    /* tp_flags       */
+  Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC | Py_TPFLAGS_SEQUENCE,    /* tp_flags       */
   "Persistent vector",   	              /* tp_doc         */
   (traverseproc)PVector_traverse,             /* tp_traverse       */
   0,                                          /* tp_clear          */
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 973d11b..6166185 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -686,8 +686,9 @@ class PVector(Generic[T_co],metaclass=ABCMeta):
 
 
 _EMPTY_PVECTOR = PythonPVector(0, SHIFT, [], [])
-PVector.register(PythonPVector)
+# Sequence first, it makes what is registered as PVector afterwards match sequence patterns
 Sequence.register(PVector)
+PVector.register(PythonPVector)
 Hashable.register(PVector)
 
 def python_pvector(iterable=()):
-- 
2.43.0


From 8f7d7830177d0a74cf13cd45cedb09d05ab0feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:22 +0000
Subject: [PATCH 27/29] fix: allow fields and members of records and classes to
 be named self or cls

Keyword creation and set() of records, persistent classes and immutable()
classes with a field or member of that name raised TypeError.
---
 pyrsistent/_immutable.py | 2 +-
 pyrsistent/_pclass.py    | 4 ++--
 pyrsistent/_precord.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_immutable.py b/pyrsistent/_immutable.py
index f1f813a..5991129 100644
--- a/pyrsistent/_immutable.py
+++ b/pyrsistent/_immutable.py
@@ -65,7 +65,7 @@ def immutable(members='', name='Immutable', verbose=False):
 class {class_name}(namedtuple('ImmutableBase', [{quoted_members}])):
     __slots__ = tuple()
 
-    def set(self, **kwargs):
+    def set(self, /, **kwargs):
         if not kwargs:
             return self
 
diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index fd31a95..8315ac9 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -43,7 +43,7 @@ class PClass(CheckedType, metaclass=PClassMeta):
 
     More documentation and examples of PClass usage is available at https://github.com/tobgu/pyrsistent
     """
-    def __new__(cls, **kwargs):    # Support *args?
+    def __new__(cls, /, **kwargs):    # Support *args?
         result = super(PClass, cls).__new__(cls)
         factory_fields = kwargs.pop('_factory_fields', None)
         ignore_extra = kwargs.pop('ignore_extra', None)
@@ -79,7 +79,7 @@ class PClass(CheckedType, metaclass=PClassMeta):
         result._pclass_frozen = True
         return result
 
-    def set(self, *args, **kwargs):
+    def set(self, /, *args, **kwargs):
         """
         Set a field in the instance. Returns a new instance with the updated value. The original instance remains
         unmodified. Accepts key-value pairs or single string representing the field name and a value.
diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..7405a91 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -26,7 +26,7 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
 
     More documentation and examples of PRecord usage is available at https://github.com/tobgu/pyrsistent
     """
-    def __new__(cls, **kwargs):
+    def __new__(cls, /, **kwargs):
         # Hack total! If these two special attributes exist that means we can create
         # ourselves. Otherwise we need to go through the Evolver to create the structures
         # for us.
@@ -47,7 +47,7 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
 
         return e.persistent()
 
-    def set(self, *args, **kwargs):
+    def set(self, /, *args, **kwargs):
         """
         Set a field in the record. This set function differs slightly from that in the PMap
         class. First of all it accepts key-value pairs. Second it accepts multiple key-value
-- 
2.43.0


From dc80c042b1b7cdc0b8afa0befdf76647e25eb2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:14 +0000
Subject: [PATCH 28/29] fix: keep the value of a PClass field named
 ignore_extra

The constructor took it for the internal argument of create() and dropped
the value. Use a private name, as PRecord does.
---
 pyrsistent/_pclass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index 8315ac9..5fd73c8 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -46,7 +46,7 @@ class PClass(CheckedType, metaclass=PClassMeta):
     def __new__(cls, /, **kwargs):    # Support *args?
         result = super(PClass, cls).__new__(cls)
         factory_fields = kwargs.pop('_factory_fields', None)
-        ignore_extra = kwargs.pop('ignore_extra', None)
+        ignore_extra = kwargs.pop('_ignore_extra', None)
         missing_fields = []
         invariant_errors = []
         for name, field in cls._pclass_fields.items():
@@ -126,7 +126,7 @@ class PClass(CheckedType, metaclass=PClassMeta):
         if ignore_extra:
             kwargs = {k: kwargs[k] for k in cls._pclass_fields if k in kwargs}
 
-        return cls(_factory_fields=_factory_fields, ignore_extra=ignore_extra, **kwargs)
+        return cls(_factory_fields=_factory_fields, _ignore_extra=ignore_extra, **kwargs)
 
     def serialize(self, format=None):
         """
-- 
2.43.0


From 3c0e48e0a45b28fb362d9f71f21a1f9d6b72c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 29/29] fix: stop at the end of a list when indexing or slicing
 beyond it

An index or start far beyond the end was counted down one by one, which
takes forever for large numbers.
---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index b6c355b..acf692c 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -190,7 +190,7 @@ class _PListBase(object):
             raise IndexError("PList index out of range")
 
         head = self
-        while count > 0:
+        while count > 0 and head:
             head = head.rest
             count -= 1
 
-- 
2.43.0

