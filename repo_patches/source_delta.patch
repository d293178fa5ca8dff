From 06fb539864b4a64592df9e0a203f813a92ad01fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 01/20] fix: keep maxlen in PDeque.remove() and
 PDeque.reverse()

---
 pyrsistent/_pdeque.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..4ce7620 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
-- 
2.43.0


From 23efb550e4d88a903e16d5828bc69538a5efbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 02/20] fix: pdeque(iterable, maxlen=0) must be empty

t[-0:] is the whole tuple, so the deque exceeded its own bound.
---
 pyrsistent/_pdeque.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 4ce7620..aa04ee8 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -362,7 +362,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[max(len(t) - maxlen, 0):]
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From 462115e6c247d769815e0e8214d2dfccf3c44858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 03/20] fix: PDeque slices must clamp their bounds like other
 sequences

x[0:len(x)] was empty, x[:len(x) + 1] kept a single element and slicing the
empty deque raised ZeroDivisionError.
---
 pyrsistent/_pdeque.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index aa04ee8..49928b4 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -323,11 +323,12 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
+            start, stop, _ = index.indices(self._length)
             result = self
             if index.start is not None:
-                result = result.popleft(index.start % self._length)
+                result = result.popleft(start)
             if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
+                result = result.pop(self._length - stop)
 
             return result
 
-- 
2.43.0


From 2638153c2fe7a9c62c8d691f9d4a9ac28ab35d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 04/20] fix: PDeque.rotate() by more than the length of the
 deque

Rotating by more steps than there are elements left the deque unrotated.
---
 pyrsistent/_pdeque.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 49928b4..9706b50 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,9 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if abs(steps) > self._length > 0:
+            steps %= self._length
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From 7c3c01c0c55dceea4526335da6704e30030668c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 05/20] fix: PList slices with a negative start, plist([1, 2,
 3])[-1:], raised IndexError

---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..b6c355b 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -167,7 +167,7 @@ class _PListBase(object):
         # very inefficient! Use a PVector instead!
 
         if isinstance(index, slice):
-            if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
+            if index.start is not None and index.start >= 0 and index.stop is None and (index.step is None or index.step == 1):
                 return self._drop(index.start)
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
-- 
2.43.0


From f35d6d6168c15cd7752b65bb8c633f6ec6bb03cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/20] fix: repeated persistent() on pset and checked evolvers
 lost all updates

The second call found the wrapped evolver clean and returned the collection
that the evolver was created from.
---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 6a276cbe6658066266bdbaf538b4e2f29bcbb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 07/20] fix: equal psets must have equal hashes

The hash depended on the values of the underlying map, so pmap.keys() hashed
differently from an equal pset, and was unhashable for unhashable values.
---
 pyrsistent/_pset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..c2e6573 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -54,7 +54,8 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        # Not the hash of the map, sets with the same elements may be backed by maps with different values.
+        return hash(frozenset(self))
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From c69eb0a161ba6a5069060a793dfb753be9b88286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/20] fix: gc traversal of vectors sharing nodes reported the
 same reference several times

---
 pvectorcmodule.c | 72 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..91919b6 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -85,6 +85,15 @@ static PyMemberDef PVector_members[] = {
 #define INC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)++)
 #define DEC_NODE_REF_COUNT(n) (NODE_REF_COUNT(n)--)
 
+// Indicate that a node is "dirty" (has been updated by the evolver)
+// by setting the MSB of the refCount. This will be cleared when
+// creating a pvector from the evolver (cleaning it).
+#define DIRTY_BIT 0x80000000
+#define REF_COUNT_MASK (~DIRTY_BIT)
+#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
+#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
+#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
+
 static VNode* allocNode(void) {
   if(nodeCache.size > 0) {
     nodeCache.size--;
@@ -425,16 +434,37 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int visitNode(VNode *node, int level, visitproc visit, void *arg) {
+    // The objects in a node are referenced once by the node, no matter how many
+    // vectors that share it, so they must not be reported once per vector.
+    // Only report what is owned exclusively, the garbage collector will treat
+    // objects that are referenced from shared nodes as reachable.
+    int i;
+    if((NODE_REF_COUNT(node) & REF_COUNT_MASK) != 1) {
+      return 0;
+    }
+
+    for (i = 0; i < BRANCH_FACTOR; i++) {
+      if(node->items[i] != NULL) {
+        if(level > 0) {
+          int result = visitNode((VNode*)node->items[i], level - SHIFT, visit, arg);
+          if(result) {
+            return result;
+          }
+        } else {
+          Py_VISIT((PyObject*)node->items[i]);
+        }
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = visitNode(o->tail, 0, visit, arg);
+    return result ? result : visitNode(o->root, o->shift, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -514,7 +544,7 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the GC, the nodes are still owned by the original vector.
   return newVector;
 }
 
@@ -1243,16 +1273,6 @@ static PyTypeObject PVectorEvolverType = {
 };
 
 
-// Indicate that a node is "dirty" (has been updated by the evolver)
-// by setting the MSB of the refCount. This will be cleared when
-// creating a pvector from the evolver (cleaning it).
-#define DIRTY_BIT 0x80000000
-#define REF_COUNT_MASK (~DIRTY_BIT)
-#define IS_DIRTY(node) ((node)->refCount & DIRTY_BIT)
-#define SET_DIRTY(node) ((node)->refCount |= DIRTY_BIT)
-#define CLEAR_DIRTY(node) ((node)->refCount &= REF_COUNT_MASK)
-
-
 static void cleanNodeRecursively(VNode *node, int level) {
   debug("Cleaning recursively node=%p, level=%u\n", node, level);
 
@@ -1497,6 +1517,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     Py_DECREF(self->originalVector);
   }
 
@@ -1530,12 +1551,21 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
 }
 
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
-  if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
-  }
+  Py_VISIT(self->originalVector);
   Py_VISIT(self->appendList);
-  return 0;
+
+  // The new vector is not tracked, the evolver owns its dirty nodes while all other
+  // nodes are shared with the original vector.
+  int result = 0;
+  if(IS_DIRTY(self->newVector->tail)) {
+    result = visitNode(self->newVector->tail, 0, visit, arg);
+  }
+
+  if(!result && IS_DIRTY(self->newVector->root)) {
+    result = visitNode(self->newVector->root, self->newVector->shift, visit, arg);
+  }
+
+  return result;
 }
 
 static PyMethodDef PyrsistentMethods[] = {
-- 
2.43.0


From 15ed728d5539cb014da76acf5e578f4061db2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 09/20] fix: PVector.extend leaked the partial vector when the
 iterable raised

---
 pvectorcmodule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 91919b6..f649a40 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -893,6 +893,9 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
+      if (PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) {
+        Py_DECREF(newVec);
+      }
       HANDLE_ITERATION_ERROR()
       return (PyObject*)newVec;
     }
-- 
2.43.0


From a628e270d593c6a62a6eec795af8b36a0e25b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:42 +0000
Subject: [PATCH 10/20] fix: evolver must not expose an already released item
 while replacing it

---
 pvectorcmodule.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index f649a40..0b4b790 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1385,9 +1385,10 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
       SET_DIRTY(resultNode);
     } else {
       resultNode = node;
+      PyObject* oldValue = (PyObject*)resultNode->items[position & BIT_MASK];
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
       resultNode->items[position & BIT_MASK] = value;
+      Py_DECREF(oldValue);
     }
   } else {
     if(!IS_DIRTY(node)) {
-- 
2.43.0


From 61594d1843d1ab70c6638ab0ff65b5c788922c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 11/20] fix: vectors that compare equal must have equal hashes
 in both implementations

---
 pvectorcmodule.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 0b4b790..8859674 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -282,26 +282,20 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
+  // Same hash as the tuple (and the Python implementation of the vector) since
+  // all implementations of the vector may compare equal.
+  Py_hash_t hash;
+  PyObject *list = PVector_toList(self);
+  PyObject *tuple = PyList_AsTuple(list);
+  Py_DECREF(list);
 
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  hash = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return hash;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From dda11d0e35af1be50668678b188042d9a98906fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/20] fix: PVector.remove must not replace errors raised by
 comparisons with ValueError

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 8859674..a788799 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1099,7 +1099,9 @@ static PyObject* PVector_remove(PVector *self, PyObject *args) {
     return internalDelete(self, index, NULL);
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  if(PyErr_ExceptionMatches(PyExc_ValueError)) {
+    PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  }
   return NULL;
 }
 
-- 
2.43.0


From 9dda1677704d76575f4283d02263263f12593b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:21 +0000
Subject: [PATCH 13/20] fix: key sets of records and checked maps could not be
 updated like any other set

---
 pyrsistent/_pmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..d0be005 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -228,7 +228,8 @@ class PMap(Generic[KT, VT_co]):
 
     def keys(self):
         from ._pset import PSet
-        return PSet(self)
+        # The set must not be subject to the checks made by subclasses of PMap when updated.
+        return PSet(self if type(self) is PMap else PMap(self._size, self._buckets))
 
     def items(self):
         return PMapItems(self)
-- 
2.43.0


From 5bffb66f78cb9c9932475a849fc48c6f9baaea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:21 +0000
Subject: [PATCH 14/20] fix: record evolver reported fields as missing after
 they had been set

---
 pyrsistent/_precord.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..213af2a 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -148,12 +148,13 @@ class _PRecordEvolver(PMap._Evolver):
         else:
             result = pm
 
+        missing_fields = tuple(self._missing_fields)
         if cls._precord_mandatory_fields:
-            self._missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
-                                          in (cls._precord_mandatory_fields - set(result.keys())))
+            missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
+                                    in (cls._precord_mandatory_fields - set(result.keys())))
 
-        if self._invariant_error_codes or self._missing_fields:
-            raise InvariantException(tuple(self._invariant_error_codes), tuple(self._missing_fields),
+        if self._invariant_error_codes or missing_fields:
+            raise InvariantException(tuple(self._invariant_error_codes), missing_fields,
                                      'Field invariant failed')
 
         check_global_invariants(result, cls._precord_invariants)
-- 
2.43.0


From 277ce1e167c917aad4df962e8809f8afc8c10444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:10 +0000
Subject: [PATCH 15/20] fix: pset ^ set and set operators with a pset on the
 right raised TypeError

---
 pyrsistent/_pset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index c2e6573..2f7b7c4 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -187,6 +187,10 @@ class PSet(Generic[T_co]):
     __or__ = Set.__or__
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
 
     issubset = __le__
     issuperset = __ge__
-- 
2.43.0


From fbd057790415da2c37d97b7ad09211ebe5e3f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 16/20] fix: a map with a key named '_cached_hash' used its
 value as hash

---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index d0be005..f3a3a58 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -248,7 +249,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -271,7 +272,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From 10ed29872d945defb940aefecf75360e050453cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:23 +0000
Subject: [PATCH 17/20] fix: checked vectors and sets accepted anything when
 created from a PythonPVector or a PMap

P(pvector([-1])) skipped all checks when the C extension is not in use, and S(pmap({'a': 1})) always did.
---
 pyrsistent/_checked_types.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..6369e70 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -291,9 +291,6 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
-            return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
-
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
 
     def set(self, key, value):
@@ -348,7 +345,8 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                # The contents have been checked, __new__() of the class would check them again
+                result = PythonPVector.__new__(self._destination_class, pv._count, pv._shift, pv._root, pv._tail)
                 self._reset(result)
 
             return result
@@ -377,9 +375,6 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
-
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
             evolver.add(e)
@@ -428,7 +423,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                # The elements have been checked, __new__() of the class would check them again
+                self._original_pset = PSet.__new__(self._destination_class, self._pmap_evolver.persistent())
 
             return self._original_pset
 
-- 
2.43.0


From 141ceef201cd1deabdb0c014671fe5bed7ecdb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:42 +0000
Subject: [PATCH 18/20] fix: subclasses of a subclass of a checked collection
 lost its type declaration

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 6369e70..0b4f1e5 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From 550546ba6ce9604a997b5272c239c6ad1320820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:02 +0000
Subject: [PATCH 19/20] fix: ignore_extra was not passed on to the elements of
 checked maps

create(..., ignore_extra=True) reached nested records and classes in checked
vectors and sets but raised AttributeError for those in a CheckedPMap, and in
an optional pmap_field.
---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_field_common.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0b4f1e5..4e84c07 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -506,8 +506,8 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         checked_value_type = next((t for t in value_types if issubclass(t, CheckedType)), None)
 
         if checked_key_type or checked_value_type:
-            return cls(dict((checked_key_type.create(key) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
-                             checked_value_type.create(value) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
+            return cls(dict((checked_key_type.create(key, ignore_extra=ignore_extra) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
+                             checked_value_type.create(value, ignore_extra=ignore_extra) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
                             for key, value in source_data.items()))
 
         return cls(source_data)
diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..5a7b7a7 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -319,11 +319,11 @@ def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIA
     TheMap = _make_pmap_field_type(key_type, value_type)
 
     if optional:
-        def factory(argument):
+        def factory(argument, _factory_fields=None, ignore_extra=False):
             if argument is None:
                 return None
             else:
-                return TheMap.create(argument)
+                return TheMap.create(argument, _factory_fields=_factory_fields, ignore_extra=ignore_extra)
     else:
         factory = TheMap.create
 
-- 
2.43.0


From ee4d42b24631173c361a7c4ed8e2ca062bb4a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 20/20] fix: instances of a class and of a subclass with more
 fields compared equal but hashed differently

---
 pyrsistent/_pclass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index fd31a95..9742fb2 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -152,7 +152,8 @@ class PClass(CheckedType, metaclass=PClassMeta):
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
-            for name in self._pclass_fields:
+            # The other instance may be of a subclass with additional fields
+            for name in other._pclass_fields:
                 if getattr(self, name, _MISSING_VALUE) != getattr(other, name, _MISSING_VALUE):
                     return False
 
@@ -165,7 +166,7 @@ class PClass(CheckedType, metaclass=PClassMeta):
 
     def __hash__(self):
         # May want to optimize this by caching the hash somehow
-        return hash(tuple((key, getattr(self, key, _MISSING_VALUE)) for key in self._pclass_fields))
+        return hash(frozenset(self._to_dict().items()))
 
     def __setattr__(self, key, value):
         if getattr(self, '_pclass_frozen', False):
-- 
2.43.0

