From d54a4f4217e7d62a5f6dd29d99a740b77314d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 01/93] fix: stale cached length of a bitset made from a
 mutated mutable bitset

A mutable bitset can take over the storage of a dead immutable bitset
and update it in place; the length cached in it must not survive when
the storage is shared out again as an immutable bitset.
---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c282bc3..eccaadd 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1268,6 +1268,8 @@ mutbitset_as_noncomplemented_immbitset_subtype(NyMutBitSetObject *v, PyTypeObjec
          Py_SIZE(slo->set) == size)) {
         bs = slo->set;
         Py_INCREF(bs);
+        /* The fields may have been updated in place since len() was cached. */
+        bs->ob_length = -1;
         v->cur_field = 0;
     } else {
         bs = NyImmBitSet_SubtypeNew(type, size);
-- 
2.43.0


From c07653f1ffebe22f8b8bbdc55db1409e28ee496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 02/93] fix: membership test of complemented mutable bitsets

The test ignored the complement flag and answered for the complement.
---
 src/sets/bitset.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index eccaadd..ef5a5f1 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1330,9 +1330,7 @@ NyMutBitSet_hasbit(NyMutBitSetObject *v, NyBit bit)
     NyBitField f, *fp;
     bitno_to_field(bit, &f);
     fp = mutbitset_findpos(v, f.pos);
-    if (!fp)
-        return 0;
-    return (fp->bits & f.bits) != 0;
+    return (fp && (fp->bits & f.bits) != 0) != (v->cpl != 0);
 }
 static int
 mutbitset_contains(NyMutBitSetObject *v, PyObject *w)
-- 
2.43.0


From b7cfd763c0d3c0b833edd03b60e5bc91cd256151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 03/93] fix: copying a complemented mutable bitset with several
 segments

The copy shares the segments but lost the complement flag.
---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index ef5a5f1..46f87fd 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2164,6 +2164,8 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     Py_XDECREF(set);
     Py_XDECREF(root);
     if (!ms) return 0;
+    if (root)
+        ms->cpl = ((NyMutBitSetObject *)arg)->cpl;
     if (!(set || root)) {
         if (arg) {
             void *r = mutbitset_ior(ms, arg);
-- 
2.43.0


From a7100ce2a37bc1dee070d1e9324517ad08a2bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 04/93] fix: empty instances of ImmBitSet subclasses

They are not the NyImmBitSet_Empty singleton, so they were true, and
indexing or shifting them read outside the object.
---
 src/sets/bitset.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 46f87fd..971977d 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2884,7 +2884,7 @@ immbitset_lshift(NyImmBitSetObject *v, NyBit w)
     NyBit n;
     NyBit lopos, hipos;
     NyBit i;
-    if (v == NyImmBitSet_Empty) {
+    if (Py_SIZE(v) == 0) {
         Py_INCREF(NyImmBitSet_Empty);
         return NyImmBitSet_Empty;
     }
@@ -3058,7 +3058,7 @@ immbitset_subscript(NyImmBitSetObject *v, PyObject *w)
     i = PyLong_AsSsize_t(w);
     if (i == -1 && PyErr_Occurred())
         return 0;
-    if (v == NyImmBitSet_Empty) {
+    if (Py_SIZE(v) == 0) {
         PyErr_SetString(PyExc_IndexError, "empty immbitset - index out of range");
         return 0;
     }
@@ -3175,7 +3175,7 @@ immbitset(PyTypeObject *unused, PyObject *args, PyObject *kwds)
 static int
 immbitset_nonzero(NyImmBitSetObject *v)
 {
-    return v != NyImmBitSet_Empty;
+    return Py_SIZE(v) != 0;
 }
 
 static int
-- 
2.43.0


From b8cdd5a4fa1d25e8e70d2e864ac35657688672f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 05/93] fix: in-place xor of a mutable bitset with repeated
 elements

ms ^= [2, 2] toggled bit 2 twice, unlike the xor of immutable bitsets,
which treats the operand as the set of its elements.
---
 src/sets/bitset.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 971977d..c1069b6 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1800,7 +1800,9 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
 {
     PyObject *it = 0;      /* iter(v) */
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int tms_op = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
+        /* Collect the elements first; there may be duplicates. */
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1829,7 +1831,7 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, tms_op, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1849,7 +1851,9 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyList_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int tms_op = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
+        /* Collect the elements first; there may be duplicates. */
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1864,7 +1868,7 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, tms_op, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1883,10 +1887,11 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyTuple_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int tms_op = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
+        /* Collect the elements first; there may be duplicates. */
         tms = NyMutBitSet_New();
         if (!tms) return -1;
-
         op = NyBits_OR;
     }
     else
@@ -1899,7 +1904,7 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, tms_op, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1918,7 +1923,9 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
     Py_ssize_t i;
     NyMutBitSetObject *tms;
     PyObject *key, *value;
-    if (op == NyBits_AND) {
+    int tms_op = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
+        /* Collect the elements first; there may be duplicates. */
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1934,7 +1941,7 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, tms_op, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
-- 
2.43.0


From 7e6e78f9e74acb39f01e3abadafc99b2843faabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 06/93] fix: hash of a complemented bitset must not be -1

When the complement hashes to 0, the error value was returned without
an exception, giving SystemError.
---
 src/sets/bitset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c1069b6..7733e39 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3564,7 +3564,10 @@ cplbitset_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 static Py_hash_t
 cplbitset_hash(NyCplBitSetObject *v)
 {
-    return ~immbitset_hash(v->ob_val);
+    Py_hash_t h = ~immbitset_hash(v->ob_val);
+    if (h == -1)
+        h = -2;
+    return h;
 }
 
 static NyImmBitSetObject *
-- 
2.43.0


From e2e9a2bbb329827d15a6b92b7cf91bbc0d68d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 07/93] fix: bitset slices with unusable bounds

A bound that was not an int, or too large, returned NULL without an
exception set (SystemError), and a lower bound of -sys.maxsize-1 ran
off the start of the slice.
---
 src/sets/bitset.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 7733e39..4cecef7 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2576,6 +2576,19 @@ mutbitset_slice(NyMutBitSetObject *a, NyBit ilow, NyBit ihigh)
    Notes per 5/6 -03 comment on why sq_slice didn't work.
 */
 
+static int
+NySlice_GetIndex(PyObject *v, NyBit *i)
+{
+    if (!PyLong_Check(v)) {
+        PyErr_SetString(PyExc_TypeError, "bitset slice indices must be integers or None");
+        return -1;
+    }
+    *i = PyLong_AsSsize_t(v);
+    if (*i == -1 && PyErr_Occurred())
+        return -1;
+    return 0;
+}
+
 static int
 NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
 {
@@ -2583,8 +2596,8 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->step == Py_None) {
             *step = 1;
     } else {
-        if (!PyLong_Check(r->step)) return -1;
-        *step = PyLong_AsSsize_t(r->step);
+        if (NySlice_GetIndex(r->step, step) == -1)
+            return -1;
         if (*step != 1) {
             PyErr_SetString(PyExc_IndexError, "bitset slicing step must be 1");
             return -1;
@@ -2593,14 +2606,14 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->start == Py_None) {
         *start = 0;
     } else {
-        if (!PyLong_Check(r->start)) return -1;
-        *start = PyLong_AsSsize_t(r->start);
+        if (NySlice_GetIndex(r->start, start) == -1)
+            return -1;
     }
     if (r->stop == Py_None) {
         *stop = PY_SSIZE_T_MAX;
     } else {
-        if (!PyLong_Check(r->stop)) return -1;
-        *stop = PyLong_AsSsize_t(r->stop);
+        if (NySlice_GetIndex(r->stop, stop) == -1)
+            return -1;
     }
     return 0;
 }
@@ -2991,7 +3004,7 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
         }
         return bs;
     } else if (ilow < 0 && ihigh == PY_SSIZE_T_MAX) {
-        nbitswanted = - ilow;
+        nbitswanted = ilow == NyBit_MIN ? NyBit_MAX : - ilow;
         for (s = se; --s >= ss;) {
             for (fs = sf_getrange(s, &f); --f >= fs; ) {
                 if (nbits >= nbitswanted)
-- 
2.43.0


From 162878ce9f683797ed7ce584e60fbbe52135cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 08/93] fix: clear() of a complemented mutable bitset

It left the complement flag set, so the cleared set contained every bit.
---
 src/sets/bitset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 4cecef7..6a6ed91 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1688,6 +1688,7 @@ mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    v->cpl = 0;
     return mutbitset_reset(v, 0);
 }
 
-- 
2.43.0


From ccfe66f9bbc5b895cfd15a76335c35f32cd8645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 09/93] fix: adding to a mutable bitset with one free place on
 the far side

m = mutbitset(immbitset([0, -7])); m.pop(0); m.add(67) failed an
assertion, or without assertions wrote past the end of the storage.
---
 src/sets/bitset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 6a6ed91..50fa255 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1038,7 +1038,10 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
+        /* A single free place can not be centered; use it where it is. */
+        if (sf->hi < hi_tot)    goto MOVE_HI;
+        assert(sf->lo > lo_tot);
+        goto MOVE_LO;
     }
 
     if (sf_realloc(sf, sf->hi + 1 - lo_tot) == -1)
-- 
2.43.0


From 4e9372348c581e454c18823003d00dbb048c75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 10/93] fix: in-place xor of a mutable nodeset with repeated
 elements

The left operand was toggled once per occurrence, so 's ^= [a, a]' had
no effect although 's ^ [a, a]' has.
---
 src/sets/nodeset.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index de1c2a3..2b368ea 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -1030,7 +1030,20 @@ nodeset_ixor(NyNodeSetObject *v, PyObject *w)
 {
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_xor((PyObject *)v, w);
-    else
+    else if (!NyNodeSet_Check(w)) {
+        /* Make a set of it, so that repeated elements are inverted once. */
+        PyObject *ret;
+        NyNodeSetObject *ns = NyMutNodeSet_New();
+        if (!ns)
+            return 0;
+        ret = nodeset_ior(ns, w);
+        if (ret) {
+            Py_DECREF(ret);
+            ret = nodeset_iop_chk_iterable(v, (PyObject *)ns, NyNodeSet_invobj);
+        }
+        Py_DECREF(ns);
+        return ret;
+    } else
         return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
 }
 
-- 
2.43.0


From 11e0e3d6504abf780420af7e032352fb08567815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 11/93] fix: iterating over a mutable nodeset after removing
 elements

The iterator ran over a snapshot of the addresses and gave objects that
were no longer held by the nodeset, possibly freed.
---
 src/sets/nodeset.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 2b368ea..c04abb1 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -224,16 +224,21 @@ mutnsiter_getiter(PyObject *it)
 static PyObject *
 mutnsiter_iternext(NyMutNodeSetIterObject *hi)
 {
-    PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+    PyObject *bitobj;
     PyObject *ret;
     NyBit bitno;
-    if (!bitobj)
-        return 0;
-    bitno = PyLong_AsSsize_t(bitobj);
-    if (bitno == -1 && PyErr_Occurred())
-        return 0;
-    ret = nodeset_bitno_to_obj(bitno);
-    Py_DECREF(bitobj);
+    do {
+        bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+        if (!bitobj)
+            return 0;
+        bitno = PyLong_AsSsize_t(bitobj);
+        Py_DECREF(bitobj);
+        if (bitno == -1 && PyErr_Occurred())
+            return 0;
+        ret = nodeset_bitno_to_obj(bitno);
+        /* The iterator runs over the bits set when it was made;
+           an object removed since then may be gone. */
+    } while (!NyNodeSet_hasobj(hi->nodeset, ret));
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
     } else {
-- 
2.43.0


From e8722f7002a11f0fdaf6368c0b43ff73242f45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 12/93] fix: clearing a mutable nodeset whose elements have
 finalizers

Elements were released while their addresses were still in the set, so a
finalizer or weak reference callback that looked at the set saw freed
objects, and one that added elements lost them.
---
 src/sets/nodeset.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index c04abb1..cb41694 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -131,6 +131,7 @@ PyDoc_STRVAR(mutnodeset_doc,
 /* Forward decls */
 
 static PyObject * nodeset_bitno_to_obj(NyBit bitno);
+int NyNodeSet_clear(NyNodeSetObject *v);
 PyTypeObject NyImmNodeSet_Type;
 PyTypeObject NyMutNodeSet_Type;
 
@@ -366,23 +367,18 @@ nodeset_bitset(NyNodeSetObject *v) {
 
 
 static int
-nodeset_dealloc_iter(PyObject *obj, void *v)
+nodeset_dealloc_visit(NyBit bitno, void *v)
 {
-    Py_DECREF(obj);
+    Py_DECREF(nodeset_bitno_to_obj(bitno));
     return 0;
 }
 
 static int
 mutnodeset_gc_clear(NyNodeSetObject *v)
 {
-    if (v->u.bitset) {
-        PyObject *x = v->u.bitset;
-        if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
-        }
-        v->u.bitset = 0;
-        Py_DECREF(x);
-    }
+    /* The nodeset must stay usable, it can be seen until it is deallocated. */
+    if (v->u.bitset && NyNodeSet_clear(v) == -1)
+        PyErr_Clear();
     if (v->_hiding_tag_) {
         PyObject *x = v->_hiding_tag_;
         v->_hiding_tag_ = 0;
@@ -396,7 +392,13 @@ mutnodeset_dealloc(NyNodeSetObject *v)
 {
     PyObject_GC_UnTrack(v);
     Py_TRASHCAN_BEGIN(v, mutnodeset_dealloc)
-    mutnodeset_gc_clear(v);
+    if (v->u.bitset) {
+        if (v->flags & NS_HOLDOBJECTS) {
+            NyAnyBitSet_iterate(v->u.bitset, (NySetVisitor)nodeset_dealloc_visit, 0);
+        }
+        Py_CLEAR(v->u.bitset);
+    }
+    Py_CLEAR(v->_hiding_tag_);
     Py_TYPE(v)->tp_free((PyObject *)v);
     Py_TRASHCAN_END
 }
@@ -628,12 +630,18 @@ int
 NyNodeSet_clear(NyNodeSetObject *v)
 {
     if (NyMutNodeSet_Check(v) && v->u.bitset) {
-        if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
-        }
-        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
+        /* Detach the storage first: releasing the elements may run code that
+           looks at, or changes, this nodeset. */
+        PyObject *bitset = v->u.bitset;
+        PyObject *empty = (PyObject *)NyMutBitSet_New();
+        if (!empty)
             return -1;
+        v->u.bitset = empty;
         Py_SET_SIZE(v, 0);
+        if (v->flags & NS_HOLDOBJECTS) {
+            NyAnyBitSet_iterate(bitset, (NySetVisitor)nodeset_dealloc_visit, 0);
+        }
+        Py_DECREF(bitset);
     } else {
         PyErr_Format(PyExc_ValueError,
                      "mutable nodeset required");
-- 
2.43.0


From de23930e063206d200891feb680bca128b706e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 13/93] fix: in-place nodeset operations whose elements change
 the nodesets

Removing an element may run its finalizer, which could modify the nodeset
being iterated over while its storage was walked.
---
 src/sets/nodeset.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index cb41694..e2d64d1 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -152,7 +152,16 @@ static int
 iterable_iterate(PyObject *v, NyIterableVisitor visit,
                  void *arg)
 {
-    if (NyNodeSet_Check(v)) {
+    if (NyMutNodeSet_Check(v) && ((NyNodeSetObject *)v)->flags & NS_HOLDOBJECTS) {
+        /* Hold on to the elements, as visit may make the nodeset change. */
+        int r;
+        NyNodeSetObject *cp = NyImmNodeSet_NewCopy((NyNodeSetObject *)v);
+        if (!cp)
+            return -1;
+        r = NyNodeSet_iterate(cp, visit, arg);
+        Py_DECREF(cp);
+        return r;
+    } else if (NyNodeSet_Check(v)) {
         return NyNodeSet_iterate((NyNodeSetObject *)v, visit, arg);
     } else {
         PyObject *it = PyObject_GetIter(v);
@@ -1015,7 +1024,7 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
             goto err;
         Py_DECREF(p);
     }
-    if (NyNodeSet_iterate(v, (NyIterableVisitor) nodeset_iand_visit, &ta) == -1)
+    if (iterable_iterate((PyObject *)v, (NyIterableVisitor) nodeset_iand_visit, &ta) == -1)
         goto err;
     Py_INCREF(v);
 ret:
-- 
2.43.0


From 99456c3b6c839b54b9c0408c3e286fc8c6596419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 14/93] fix: collect garbage cycles through iterators of
 mutable nodesets

---
 src/sets/nodeset.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index e2d64d1..3e9650b 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -219,9 +219,19 @@ typedef struct {
 static void
 mutnsiter_dealloc(NyMutNodeSetIterObject *v)
 {
+    PyObject_GC_UnTrack(v);
+    Py_TRASHCAN_BEGIN(v, mutnsiter_dealloc)
     Py_DECREF(v->bitset_iter);
     Py_DECREF(v->nodeset);
-    PyObject_DEL(v);
+    PyObject_GC_Del(v);
+    Py_TRASHCAN_END
+}
+
+static int
+mutnsiter_traverse(NyMutNodeSetIterObject *v, visitproc visit, void *arg)
+{
+    Py_VISIT(v->nodeset);
+    return 0;
 }
 
 static PyObject *
@@ -263,7 +273,8 @@ PyTypeObject NyMutNodeSetIter_Type = {
     .tp_basicsize = sizeof(NyMutNodeSetIterObject),
     .tp_dealloc   = (destructor)mutnsiter_dealloc,
     .tp_getattro  = PyObject_GenericGetAttr,
-    .tp_flags     = Py_TPFLAGS_DEFAULT,
+    .tp_flags     = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC,
+    .tp_traverse  = (traverseproc)mutnsiter_traverse,
     .tp_iter      = (getiterfunc)mutnsiter_getiter,
     .tp_iternext  = (iternextfunc)mutnsiter_iternext,
 };
@@ -537,7 +548,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     bitset_iter = Py_TYPE(v->u.bitset)->tp_iter(v->u.bitset);
     if (!bitset_iter)
         return 0;
-    iter = PyObject_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
+    iter = PyObject_GC_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
     if (!iter) {
         Py_DECREF(bitset_iter);
         return 0;
@@ -545,6 +556,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     iter->bitset_iter = bitset_iter;
     iter->nodeset = v;
     Py_INCREF(v);
+    PyObject_GC_Track(iter);
     return (PyObject *)iter;
 }
 
-- 
2.43.0


From ae370ccd83cea19a0cb657ef36a586a1350041a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 15/93] fix: reference counts when assigning several targets in
 a nodegraph

The first new target was given all the references and the others none,
so that they could be freed while still in the graph.
---
 src/heapy/nodegraph.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index a7ea193..8732990 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -915,6 +915,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
             Py_DECREF(old);
         }
     } else {
+        PyObject *olds;
         if (!PyTuple_Check(w)) {
             PyErr_SetString(PyExc_TypeError, "ng_ass_sub: value to assign must be a tuple");
             return -1;
@@ -926,12 +927,16 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         }
+        /* Release the old targets afterwards, this may change the graph. */
+        olds = PyTuple_New(regsize);
+        if (!olds)
+            return -1;
         for (i = 0; i < regsize; i++) {
-            PyObject *old = lo[i].tgt;
+            PyTuple_SET_ITEM(olds, i, lo[i].tgt);
             lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo->tgt);
-            Py_XDECREF(old);
+            Py_INCREF(lo[i].tgt);
         }
+        Py_DECREF(olds);
     }
     return 0;
 }
-- 
2.43.0


From 0ecaac1bef0e25280c9b0dc4c194eda3dda4f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 16/93] fix: a class refers to its metaclass if that is a heap
 type

---
 src/heapy/stdtypes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca20586..65f8554 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -629,6 +629,7 @@ static ny_static_type_state *NyStaticType_GetState(PyTypeObject *self)
    except:
    * I removed the check for heap type
    * I added visit of tp_subclasses and slots
+   * I added visit of a heap allocated metaclass, as for its other instances
  */
 
 static int
@@ -638,6 +639,9 @@ type_traverse(NyHeapTraverse *ta)
     visitproc visit = ta->visit;
     void *arg = ta->arg;
 
+    if (Py_TYPE(type)->tp_flags & Py_TPFLAGS_HEAPTYPE)
+        Py_VISIT(Py_TYPE(type));
+
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
     if (type->tp_flags & _Py_TPFLAGS_STATIC_BUILTIN) {
         ny_static_type_state *state = NyStaticType_GetState(type);
-- 
2.43.0


From 257dcc7c85f62754eeb54f4b06e8f5388ca97536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 17/93] fix: a frame refers to the objects on its value stack

---
 src/heapy/stdtypes.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 65f8554..7bf04ec 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -455,6 +455,17 @@ frame_traverse(NyHeapTraverse *ta) {
     } else {
         for (i = 0; i < co->co_nlocalsplus; i++)
             Py_VISIT(PyStackRef_AsPyObjectBorrow(iv->localsplus[i]));
+
+        /* stack; empty here, as in frame_relate, while the frame executes */
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 14
+        _PyStackRef *p;
+
+        for (p = iv->localsplus + co->co_nlocalsplus; p < iv->stackpointer; p++)
+            Py_VISIT(PyStackRef_AsPyObjectBorrow(*p));
+#else
+        for (i = co->co_nlocalsplus; i < iv->stacktop; i++)
+            Py_VISIT(iv->localsplus[i]);
+#endif
     }
 
     return 0;
-- 
2.43.0


From 31044810080a34e1e23f001e10f2f203d93a0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 18/93] fix: hidden instances do not lead to other objects in
 any traversal

---
 src/heapy/hv.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 54eb8b5..dc1e818 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -525,6 +525,13 @@ xt_size(ExtraType *xt, PyObject *obj)
 }
 
 
+static int
+hv_is_dict_hiding(NyHeapViewObject *hv, PyObject *obj)
+{
+    PyObject **dp = _PyObject_GetDictPtr(obj);
+    return dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) == hv->_hiding_tag_;
+}
+
 static int
 xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
 {
@@ -557,7 +564,10 @@ xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
 #endif
     if (xt->xt_trav_code == XT_NO)
         return 0;
-    else if (xt->xt_trav_code == XT_TP)
+    /* Like xt_he_traverse: what is only in a hidden object is hidden too */
+    if (xt != &xt_error && hv_is_dict_hiding((NyHeapViewObject *)xt->xt_hv, obj))
+        return 0;
+    if (xt->xt_trav_code == XT_TP)
         return Py_TYPE(obj)->tp_traverse(obj, visit, arg);
     else
         return xt->xt_traverse(xt, obj, visit, arg);
@@ -611,8 +621,7 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
         /* Fixes a dominos confusion; see Notes Apr 20 2005 */
         return 1;
     } else {
-        PyObject **dp = _PyObject_GetDictPtr(obj);
-        if (dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) == hv->_hiding_tag_) {
+        if (hv_is_dict_hiding(hv, obj)) {
             return 1;
         }
     }
-- 
2.43.0


From aff0a2abef5696b9adf7ec1cf7303cdbdbf64195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 19/93] fix: the internal slot name tuple of a class is not its
 __slots__ attribute

---
 src/heapy/stdtypes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 7bf04ec..f0571ee 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -718,7 +718,7 @@ type_relate(NyHeapRelate *r)
     et = (PyHeapTypeObject *)type;
 #define v et
     RENAMEATTR(ht_name, __name__);
-    RENAMEATTR(ht_slots, __slots__);
+    INTERATTR(ht_slots);
     RENAMEATTR(ht_qualname, __qualname__);
 
     INTERATTR(ht_module);
-- 
2.43.0


From 59c9a94154613f86d7f5a135aa4e7cb84b077698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 20/93] fix: relate attribute dictionaries of instances of
 list, dict, tuple and set subclasses, and relate them once

---
 src/heapy/hv.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index dc1e818..396713f 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -218,7 +218,9 @@ owht_relate(NyHeapRelate *r, PyTypeObject *type)
     PyMemberDef *mp = type->tp_members;
     if (mp) {
         while (mp->name) {
+            /* the attribute dictionary is for dictptr_relate */
             if ((mp->type == T_OBJECT_EX || mp->type == T_OBJECT) &&
+                mp->offset != type->tp_dictoffset &&
                 *((PyObject **)((char *)v+mp->offset)) == r->tgt) {
                 if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString(mp->name), r))
                     return 1;
@@ -246,13 +248,9 @@ xt_error_size(PyObject *obj)
 }
 
 static int
-xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+dictptr_relate(NyHeapRelate *r)
 {
-    PyTypeObject *type = xt->xt_type;
-    PyObject **dictptr;
-    if (owht_relate(r, type))
-        return 1;
-    dictptr = _PyObject_GetDictPtr(r->src);
+    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
     if (dictptr) {
         if (*dictptr == r->tgt) {
             if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
@@ -265,6 +263,14 @@ xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
     return 0;
 }
 
+static int
+xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+{
+    if (owht_relate(r, xt->xt_type))
+        return 1;
+    return dictptr_relate(r);
+}
+
 static int
 xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
@@ -276,6 +282,10 @@ xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
     if (owht_relate(r, xt->xt_type))
         return 1;
+    /* xt_default_relate does this for types without a special definition */
+    if (xt->xt_hd->relate && xt->xt_type->tp_dictoffset &&
+            !xt->xt_base->xt_type->tp_dictoffset && dictptr_relate(r))
+        return 1;
     return xt->xt_base->xt_relate(xt->xt_base, r);
 }
 
-- 
2.43.0


From eca4672ed0cbf1a9f900139dd3e0929b5de419ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 21/93] fix: relate functions to their builtins

---
 src/heapy/stdtypes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index f0571ee..aa8ace8 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -179,6 +179,9 @@ function_relate(NyHeapRelate *r)
     PyFunctionObject *v = (void *)r->src;
     RENAMEATTR(func_code, __code__);
     RENAMEATTR(func_globals, __globals__);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 10
+    RENAMEATTR(func_builtins, __builtins__);
+#endif
     RENAMEATTR(func_module, __module__);
     RENAMEATTR(func_defaults, __defaults__);
     RENAMEATTR(func_kwdefaults, __kwdefaults__);
-- 
2.43.0


From 01a259716cbbe3d6719565212fbcab533ec770f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 22/93] fix: relate a frame to the previous frame once

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index aa8ace8..f00b656 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -260,8 +260,9 @@ frame_relate(NyHeapRelate *r)
         return 1;
     }
     Py_XDECREF(next_frame);
-#endif
+#else
     ATTR(f_back)
+#endif
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
     GATTR(PyStackRef_AsPyObjectBorrow(iv->f_funcobj), f_funcobj, NYHR_INTERATTR);
 #elif PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
-- 
2.43.0


From e145820ce6b8df07b63c2edf17821b8208c3be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 23/93] fix: relate set elements by their position and without
 leaking them

---
 src/heapy/stdtypes.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index f00b656..196429e 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -159,11 +159,12 @@ set_relate(NyHeapRelate *r)
 
     Py_ssize_t i = 0;
     while ((obj = PyIter_Next(it))) {
+        Py_DECREF(obj);
         if (r->tgt == obj) {
-            r->visit(NYHR_INSET, PyLong_FromSsize_t(i++), r);
-            return 1;
+            Py_DECREF(it);
+            return r->visit(NYHR_INSET, PyLong_FromSsize_t(i), r);
         }
-        Py_DECREF(obj);
+        i++;
     }
 
     Py_DECREF(it);
-- 
2.43.0


From c31a93dc05e4dfee8bdd97a9b15309efdb138227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 24/93] fix: relating frames whose cell variables are no cells

---
 src/heapy/stdtypes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 196429e..3cd6aae 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -214,7 +214,8 @@ frame_locals(NyHeapRelate *r, PyObject *map, Py_ssize_t start, Py_ssize_t n, int
     Py_ssize_t i;
     for (i = start; i < start + n; i++) {
         if ((!deref && v->f_localsplus[i] == r->tgt) ||
-            (deref && PyCell_GET(v->f_localsplus[i]) == r->tgt)) {
+            (deref && v->f_localsplus[i] && PyCell_Check(v->f_localsplus[i]) &&
+             PyCell_GET(v->f_localsplus[i]) == r->tgt)) {
             PyObject *name;
             if (PyTuple_Check(map) && (i - start) < PyTuple_Size(map)) {
                 name = PyTuple_GetItem(map, i - start);
@@ -313,6 +314,10 @@ frame_relate(NyHeapRelate *r)
         if (!(kind & CO_FAST_CELL) && !(kind & CO_FAST_FREE))
             continue;
 
+        /* not yet, or no longer, a cell? */
+        if (!val || !PyCell_Check(val))
+            continue;
+
         if (PyCell_GET(val) == r->tgt) {
             Py_INCREF(name);
             if (r->visit(NYHR_CELL, name, r))
-- 
2.43.0


From 907ca6b70904c290657e0c260e488adb036cc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 25/93] fix: count paths by the relations listed, not by the
 references held

---
 guppy/heapy/Path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3cdf5d4..3af6823 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -331,7 +331,7 @@ class ShortestPaths:
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
             self.NP = NP
-        numedges = self.mod.hv.numedges
+        relations = self.mod.relations
         IG = self.IG
 
         def np(y):
@@ -342,7 +342,7 @@ class ShortestPaths:
                     sn = NP[z]
                     if sn is None:
                         sn = np(z)
-                    n += sn * numedges(y, z)
+                    n += sn * len(relations(y, z))
                 NP[y] = n
             return n
         num = 0
-- 
2.43.0


From 5aeb402f5a5482a07771bc0ab22a762a6998ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 26/93] fix: count paths longer than the recursion limit

---
 guppy/heapy/Path.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3af6823..2e856c6 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -330,24 +330,19 @@ class ShortestPaths:
             NP.add_edges_n1(self.IG.get_domain(), None)
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
+            relations = self.mod.relations
+            # Level by level from the destination; a path may be longer
+            # than the recursion limit.
+            for edges in reversed(self.edges):
+                for y in edges.get_domain():
+                    n = 0
+                    for z in edges[y]:
+                        n += NP[z] * len(relations(y, z))
+                    NP[y] = n
             self.NP = NP
-        relations = self.mod.relations
-        IG = self.IG
-
-        def np(y):
-            n = NP[y]
-            if n is None:
-                n = 0
-                for z in IG[y]:
-                    sn = NP[z]
-                    if sn is None:
-                        sn = np(z)
-                    n += sn * len(relations(y, z))
-                NP[y] = n
-            return n
         num = 0
         for src in Src.nodes:
-            num += np(src)
+            num += NP[src]
         return num
 
     def _get_numpaths(self):
-- 
2.43.0


From 82b3e0745746d015b1650a6e85fc1d5047504597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 27/93] fix: print paths with percent signs in their
 descriptions

---
 guppy/heapy/Path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 2e856c6..3fb78f5 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -149,9 +149,9 @@ class Path:
     def __len__(self):
         return int((len(self.path) - 1) / 2)
 
-    def stra(self, safe=True):
+    def stra(self, safe=True, src=None):
         if self.path:
-            s = self.strprefix
+            s = self.strprefix if src is None else src
             for i in range(1, len(self.path), 2):
                 r = self.path[i]
                 s = r.stra(s, safe=safe)
@@ -166,7 +166,7 @@ class Path:
         return repr(str(self))
 
     def _get_line_iter(self):
-        yield '%2d: %s' % (self.index, str(self) % self.srcname)
+        yield '%2d: %s' % (self.index, self.stra(src=self.srcname))
 
     def types(self):
         return [type(x) for x in self.path]
-- 
2.43.0


From e0affa4d0abb5c21e8ca9b9fab32204c65404d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:35 +0000
Subject: [PATCH 28/93] fix: further shortest paths still avoid the nodes to be
 avoided

---
 guppy/heapy/Path.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3fb78f5..20a08bc 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -301,7 +301,8 @@ class ShortestPaths:
     def copy_but_avoid_edges_at_levels(self, *args):
         avoid = self.edges_at(*args).updated(self.sg.AvoidEdges)
         assert avoid._hiding_tag_ is self.mod._hiding_tag_
-        return self.mod.shpaths(self.Dst, self.Src, avoid_edges=avoid)
+        return self.mod.shpaths(self.Dst, self.Src, self.sg.AvoidNodes,
+                                avoid_edges=avoid)
         # return self.mod.shpaths(self.dst, self.src, avoid_edges=avoid)
 
     avoided = copy_but_avoid_edges_at_levels
@@ -378,12 +379,13 @@ class ShortestPaths:
 
 
 class ShortestGraph:
-    def __init__(self, mod, G, DstSets, Src, AvoidEdges,
+    def __init__(self, mod, G, DstSets, Src, AvoidNodes, AvoidEdges,
                  srcname=None, dstname=None):
         self.mod = mod
         self.G = G
         self.Src = Src
         self.DstSets = DstSets
+        self.AvoidNodes = AvoidNodes
         self.AvoidEdges = AvoidEdges
         if srcname is None:
             if Src.count == 1:
@@ -511,7 +513,7 @@ class _GLUECLAMP_:
         G, DstSets = self.shpgraph_algorithm(
             DstSets, Src, AvoidNodes, AvoidEdges)
 
-        return self.ShortestGraph(self, G, DstSets, Src, AvoidEdges,
+        return self.ShortestGraph(self, G, DstSets, Src, AvoidNodes, AvoidEdges,
                                   srcname, dstname)
 
     def shpgraph_algorithm(self, DstSets, Src, AvoidNodes, AvoidEdges):
-- 
2.43.0


From 16f2c519eae225f84ebcdb90092352589ba77698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 29/93] fix: sizes of node sets, node graphs and mutable
 bitsets

Node sets were reported without their garbage collector header, and
mutable bitsets with the basic size of a union times its length instead
of the item size.
---
 src/heapy/nodegraph.c |  7 +++----
 src/sets/bitset.c     | 19 +++++++++++++------
 src/sets/nodeset.c    |  4 ++--
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 8732990..d8944ca 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -740,10 +740,9 @@ static PyMethodDef ng_methods[] = {
 
 static size_t
 nodegraph_size(PyObject *obj) {
-    Py_ssize_t z = Py_TYPE(obj)->tp_basicsize +
-        ((NyNodeGraphObject *)obj)->allo_size * sizeof(NyNodeGraphEdge);
-    if (PyObject_IS_GC(obj))
-        z += sizeof(PyGC_Head);
+    size_t z = _PySys_GetSizeOf(obj);
+    if (z != (size_t)-1)
+        z += ((NyNodeGraphObject *)obj)->allo_size * sizeof(NyNodeGraphEdge);
     return z;
 }
 
diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 50fa255..3e3eff3 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -11,6 +11,13 @@
 #include "../heapy/heapdef.h"
 #include "sets_internal.h"
 
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 13
+# define Py_BUILD_CORE
+/* _PySys_GetSizeOf */
+#  include <internal/pycore_sysmodule.h>
+# undef Py_BUILD_CORE
+#endif
+
 /* Docstrings */
 
 char bitset_doc[] =
@@ -4065,10 +4072,8 @@ mutbitset_get_num_seg(NyMutBitSetObject *v)
 size_t
 generic_indisize(PyObject *v)
 {
-    NyBit size = Py_TYPE(v)->tp_basicsize;
-    if (Py_TYPE(v)->tp_itemsize)
-        size += Py_SIZE(v) * Py_TYPE(v)->tp_itemsize;
-    return size;
+    /* includes what precedes the object, such as the GC header */
+    return _PySys_GetSizeOf(v);
 }
 
 
@@ -4087,11 +4092,13 @@ cplbitset_indisize(NyCplBitSetObject *v)
 size_t
 mutbitset_indisize(NyMutBitSetObject *v)
 {
-    NyBit size = Py_TYPE(v)->tp_basicsize;
+    size_t size = generic_indisize((PyObject *)v);
     int i;
+    if (size == (size_t)-1)
+        return size;
     if (v->root != &v->fst_root)
         size += Py_TYPE(v->root)->tp_basicsize +
-        Py_SIZE(v->root) * Py_TYPE(v->root)->tp_basicsize;
+        Py_SIZE(v->root) * Py_TYPE(v->root)->tp_itemsize;
      for (i = 0; i < v->root->cur_size; i++) {
          size += immbitset_indisize(v->root->ob_field[i].set);
      }
diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 3e9650b..3b7c911 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -427,8 +427,8 @@ size_t
 nodeset_indisize(PyObject *v)
 {
     NyNodeSetObject *ns = (void *)v;
-    NyBit r = generic_indisize(v);
-    if (NyMutNodeSet_Check(v))
+    size_t r = generic_indisize(v);
+    if (r != (size_t)-1 && NyMutNodeSet_Check(v))
         r += anybitset_indisize(ns->u.bitset);
     return r;
 }
-- 
2.43.0


From 01e008d8e06b95eacc60780c8ac405c99c8d4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 30/93] fix: an error in __sizeof__ is raised, not added to the
 sum

---
 src/heapy/hv.c              | 5 ++++-
 src/heapy/hv_cli_indisize.c | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 396713f..53f884f 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -981,7 +981,10 @@ typedef struct {
 static int
 hv_indisize_sum_rec(PyObject *obj, SalArg *ta)
 {
-    ta->sum += hv_std_size(ta->hv, obj);
+    size_t size = hv_std_size(ta->hv, obj);
+    if (size == (size_t)-1 && PyErr_Occurred())
+        return -1;
+    ta->sum += size;
     return 0;
 }
 
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 95b8401..f5708ac 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -25,8 +25,11 @@ hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 static PyObject *
 hv_cli_indisize_classify(IndisizeObject *self, PyObject *obj)
 {
-    PyObject *size = PyLong_FromSsize_t(hv_std_size(self->hv, obj));
-    PyObject *memoedsize;
+    size_t z = hv_std_size(self->hv, obj);
+    PyObject *size, *memoedsize;
+    if (z == (size_t)-1 && PyErr_Occurred())
+        return 0;
+    size = PyLong_FromSsize_t(z);
     if (!size)
         return size;
     memoedsize = hv_cli_indisize_memoized_kind(self, size);
-- 
2.43.0


From d8ffa2c798265b2d72e06ed55e1a1029727c0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 31/93] fix: the row of a partition, printed alone, has its own
 index and cumulative size

---
 guppy/heapy/Part.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a154608..d65f7d5 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -718,13 +718,15 @@ class SetPartition(Partition):
 
 class FastPartition(SetPartition):
     def __init__(self, mod, parent, row):
-        Partition.__init__(self, mod, parent.set, parent.er)
+        Partition.__init__(self, mod, row.set, parent.er)
 
         self.count = row.count
         self.kindheader = parent.kindheader
         self.kindname = ''
         self.numrows = 1
-        self.rows = [row]
+        # The same row, but as the first and only one
+        self.rows = [PartRow(row.count, row.size, row.name,
+                             0, row.size, row.set, row.kind)]
         self.size = row.size
 
         self.init_format(SetFormat)
-- 
2.43.0


From b5afd11d2dfc4963c63ca93b7c9730829e5f57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 32/93] fix: a too small negative row index is an error, not
 another row

---
 guppy/heapy/Part.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index d65f7d5..da2a84c 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -511,6 +511,8 @@ class Partition:
         else:
             if index < 0:
                 index += self.numrows
+                if index < 0:
+                    raise IndexError('Partition index out of range.')
             return self.get_rowset(index)
 
     def get_sets(self, index=None):
-- 
2.43.0


From ad406387e7d937d9a7087d7709120219f7dd6d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 33/93] fix: list complex numbers by identity

---
 guppy/heapy/UniSet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d3b5874..960fe5b 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1972,7 +1972,7 @@ class Summary_str:
             bool: self.str_repr,
             types.BuiltinFunctionType: self.str_builtin_function,
             types.CodeType: self.str_code,
-            complex: self.str_repr,
+            complex: self.str_complex,
             dict: self.str_address_len,
             float: self.str_repr,
             types.FrameType: self.str_frame,
@@ -2028,6 +2028,10 @@ class Summary_str:
                              x.co_name)
     str_code._idpart_header = 'File:Line:Name'
 
+    def str_complex(self, x):
+        return repr(x)
+    str_complex._idpart_sortrender = lambda x: (x.real, x.imag)
+
     def str_frame(self, x):
         return '<%s at %s>' % (x.f_code.co_name, self.str_address(x))
     str_frame._idpart_header = 'Name at Address'
-- 
2.43.0


From 272e79431ccccf221569d89b72f783e5910b8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:44 +0000
Subject: [PATCH 34/93] fix: the dictionary of a static builtin type is owned
 by it

---
 src/heapy/hv_cli_dictof.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 432f3ef..2ab3499 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -87,6 +87,9 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
     int k;
     int result = -1;
     PyObject *lists[2] = {0, 0};
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+    PyObject *type_dict = 0;
+#endif
 
     if (!(ta.dictsowned = NyMutNodeSet_New())) goto err;
     if (!(lists[0] = hv_cli_dictof_get_static_types_list(hv))) goto err;
@@ -99,6 +102,14 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
         for (i = 0; i < len; i++) {
             PyObject *obj = PyList_GET_ITEM(objects, i);
             dp = _PyObject_GetDictPtr(obj);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+            /* The dict of a static builtin type is not in the type itself */
+            if (PyType_Check(obj)) {
+                Py_XDECREF(type_dict);
+                type_dict = PyType_GetDict((PyTypeObject *)obj);
+                dp = &type_dict;
+            }
+#endif
             if (dp && *dp) {
                 if (NyNodeGraph_AddEdge(ta.rg, *dp, obj) == -1)
                     goto err;
@@ -133,6 +144,9 @@ err:
     Py_XDECREF(ta.dictsowned);
     Py_XDECREF(lists[0]);
     Py_XDECREF(lists[1]);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+    Py_XDECREF(type_dict);
+#endif
     return result;
 }
 
-- 
2.43.0


From 4f0094a1635dc7250a3d3fc6602f7901d86d74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 35/93] fix: classify by the reference of an instance to its
 class, too

---
 src/heapy/hv_cli_rel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 8e67f94..2f4511b 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -321,7 +321,7 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
 
-        if (xt->xt_relate(xt, &crva.hr) == -1 || crva.err) {
+        if (xt_relate(xt, &crva.hr) == -1 || crva.err) {
             /* fprintf(stderr, "xt 0x%x\n", xt); */
             goto Err;
         }
-- 
2.43.0


From b249681ed15e40d7d2037b7f77664c1776fcacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:26 +0000
Subject: [PATCH 36/93] fix: memoize the sets of the identity set classifier,
 so that objects referred to by the same objects are classified together

---
 guppy/heapy/Classifiers.py |  6 +++-
 src/heapy/hv_cli_idset.c   | 57 ++++++++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 35081e6..d893299 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -259,10 +259,14 @@ class ByIdentitySet(Classifier):
     # and may be optimized at higher levels to invoke the low-level set intersection
 
     def __init__(self, mod, name):
-        Classifier.__init__(self, mod, name, mod.hv.cli_idset())
+        Classifier.__init__(self, mod, name)
         self.family = mod.Use.idset
         # self.super_classifiers = mod.Use.Anything # Replace whatever Classifer had set it to
 
+    def get_cli(self):
+        memo = {}
+        return self.mod.hv.cli_idset(memo)
+
     def get_byname(self):
         return 'by identity set'
 
diff --git a/src/heapy/hv_cli_idset.c b/src/heapy/hv_cli_idset.c
index 9722b01..7742194 100644
--- a/src/heapy/hv_cli_idset.c
+++ b/src/heapy/hv_cli_idset.c
@@ -1,17 +1,48 @@
 /* Implementation of the identity-set classifier */
 
 PyDoc_STRVAR(hv_cli_idset_doc,
-"HV.cli_id() -> ObjectClassifier\n\
+"HV.cli_idset(memo) -> ObjectClassifier\n\
 \n\
 Return a classifier that classifies by set of identity.\n\
 \n\
-The classification of an object is a singleton immnodeset containing the object itself.");
+The classification of an object is a singleton immnodeset containing the object itself.\n\
+The argument is:\n\
+\n\
+    memo        A dict object used to\n\
+                memoize the classification sets.\n\
+");
+
+typedef struct {
+    PyObject_VAR_HEAD
+    NyHeapViewObject *hv;
+    PyObject *memo;
+} IdsetObject;
 
+static PyObject *
+hv_cli_idset_memoized_kind(IdsetObject *self, PyObject *kind)
+{
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
+    if (!result) {
+        if (PyErr_Occurred())
+            return 0;
+        if (PyDict_SetItem(self->memo, kind, kind) == -1)
+            return 0;
+        result = kind;
+    }
+    Py_INCREF(result);
+    return result;
+}
 
 static PyObject *
-hv_cli_idset_classify(NyHeapViewObject *self, PyObject *arg)
+hv_cli_idset_classify(IdsetObject *self, PyObject *arg)
 {
-    return (PyObject *)NyImmNodeSet_NewSingleton(arg, self->_hiding_tag_);
+    PyObject *kind, *result;
+    kind = (PyObject *)NyImmNodeSet_NewSingleton(arg, self->hv->_hiding_tag_);
+    if (!kind)
+        return 0;
+    result = hv_cli_idset_memoized_kind(self, kind);
+    Py_DECREF(kind);
+    return result;
 }
 
 static int
@@ -27,13 +58,27 @@ static NyObjectClassifierDef hv_cli_idset_def = {
     "cli_idset",
     "classifier returning singleton set containing object itself",
     (binaryfunc)hv_cli_idset_classify,
-    (binaryfunc)0,
+    (binaryfunc)hv_cli_idset_memoized_kind,
     hv_cli_idset_le,
 };
 
 static PyObject *
 hv_cli_idset(NyHeapViewObject *self, PyObject *args)
 {
-    return NyObjectClassifier_New((PyObject *)self, &hv_cli_idset_def);
+    PyObject *r, *memo;
+    IdsetObject *s;
+    if (!PyArg_ParseTuple(args, "O!:cli_idset",
+                          &PyDict_Type, &memo))
+        return NULL;
+    s = NYTUPLELIKE_NEW(IdsetObject);
+    if (!s)
+        return 0;
+    s->hv = self;
+    Py_INCREF(s->hv);
+    s->memo = memo;
+    Py_INCREF(memo);
+    r = NyObjectClassifier_New((PyObject *)s, &hv_cli_idset_def);
+    Py_DECREF(s);
+    return r;
 }
 
-- 
2.43.0


From b8eba23177fa192eeb0e6d2f16f3cf19846395da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 37/93] fix: memoize derived equivalence relations per
 classifier, not by name

The relation made for er.dictof / er.refdby was looked up by the name of
the classifier. Classifiers made for different sets by h.iso(x) share
that name, so h.iso(b).dictof could give the relation, and select the
dictionaries, of a set asked for previously.
---
 guppy/heapy/Classifiers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index d893299..9b68003 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -5,6 +5,7 @@ class Classifier:
     def __init__(self, mod, name, cli=None, supers=(), depends=(), with_referrers=False):
         self.mod = mod
         self.name = name
+        self.memo_er = {}
         if cli is not None:
             self.cli = cli
         # Set of all super-classifiers (including self).
@@ -48,6 +49,7 @@ class Classifier:
     def get_dictof(self, kind):
         name = '%s.dictof' % self.name
         er = self.mod.mker_memoized(
+            self,
             name,
             lambda:
             self.mod._er_by_(ByDictOwner, self.mod, name, self))
@@ -1308,23 +1310,24 @@ class _GLUECLAMP_:
         if name is None:
             name = '%s.dictof' % er.classifier.name
         return self.mker_memoized(
+            er.classifier,
             name,
             lambda:
             self._er_by_(ByDictOwner, self, name, er.classifier))
 
-    def _get_memo_er(self):
-        return {}
-
-    def mker_memoized(self, name, f):
-        v = self.memo_er.get(name)
+    def mker_memoized(self, classifier, name, f):
+        # The equivalence relations derived from a classifier are memoized
+        # with it. Different classifiers may have the same name.
+        v = classifier.memo_er.get(name)
         if v is None:
-            self.memo_er[name] = v = f()
+            classifier.memo_er[name] = v = f()
         return v
 
     def mker_refdby(self, er, name=None):
         if name is None:
             name = '%s.refdby' % er.classifier.name
         return self.mker_memoized(
+            er.classifier,
             name,
             lambda:
             self._er_by_(
-- 
2.43.0


From 971afe8fd8adf0658cec3bb2e5cf8615b7fc1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:47 +0000
Subject: [PATCH 38/93] fix: give kinds of Idset a representation as argument
 of refdby

Idset.refdby(x) raised AttributeError when its kind was printed.
---
 guppy/heapy/Classifiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 9b68003..7922b2d 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -275,6 +275,9 @@ class ByIdentitySet(Classifier):
     def get_userkind(self, node):
         return self.family(self.mod.ImpSet.immnodeset([node]))
 
+    def get_userkindargrepr(self, kind):
+        return kind.brief
+
     def relimg(self, X):
         p = self.partition_cli(X)
         k = self.mod.ImpSet.immnodeset_union([k for k, v in p])
-- 
2.43.0


From 67869c0560e92886a897339548fd081c4e021246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 39/93] fix: do not memoize the kinds of unowned and other
 objects with the owner classifier

With an owner classifier that checks the kinds it memoizes, as those of
products and of referrers do, selecting by er.dictof.refdby raised
TypeError when an object referred to was not an owned dictionary.
---
 src/heapy/hv_cli_dictof.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 2ab3499..e0657bb 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -185,6 +185,11 @@ hv_cli_dictof_classify(DictofObject *self, PyObject *obj)
 static PyObject *
 hv_cli_dictof_memoized_kind(DictofObject *self, PyObject *obj)
 {
+    if (obj == self->notdictkind || obj == self->notownedkind) {
+        /* Not kinds of the owner classifier */
+        Py_INCREF(obj);
+        return obj;
+    }
     if (self->ownerclassifier->def->memoized_kind)
         return self->ownerclassifier->def->memoized_kind(self->ownerclassifier->self, obj);
     else {
-- 
2.43.0


From ccf0c9adf29f3afbaffc988ca42f2ce4de1d8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 40/93] fix: print the kind of None as an expression that can
 be evaluated

hpy().Type.None is not an expression since None is a keyword.
---
 guppy/heapy/Classifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 7922b2d..8c80c45 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1271,6 +1271,7 @@ class _GLUECLAMP_:
         '_parent:Use',
         '_root.guppy.etc.etc:str2int',
         '_root:inspect',
+        '_root:keyword',
         '_root:re',
         '_root:types',
         '_root:builtins',
@@ -1459,7 +1460,7 @@ the object.
     def _get_invtypemod(self):
         invtypemod = {}
         for k, v in list(self.types._module.__dict__.items()):
-            if k.endswith('Type'):
+            if k.endswith('Type') and not self.keyword.iskeyword(k[:-4]):
                 invtypemod[v] = k[:-4]
         return invtypemod
 
-- 
2.43.0


From 1337c0a80faf34f2f50aa24f708abd990fc4ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 41/93] fix: dictionaries of owners of overlapping kinds are
 not disjoint

Two different kinds of owned dictionaries were taken as disjoint, so
that (h.Type(C).dictof & h.Size(56).dictof) was Nothing, and X - k with
a product k of such kinds was X.
---
 guppy/heapy/Classifiers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 8c80c45..01ac884 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -476,6 +476,13 @@ class OwnedDictFamily:
     def _get_ownerkind(self, a):
         return a.arg
 
+    def _factordisjoint_ATOM(self, a, b):
+        if b.fam is self:
+            # Each dictionary has at most one owner
+            return a.arg.disjoint(b.arg)
+        return (a.fam.disjoints & b.fam.supers or
+                b.fam.disjoints & a.fam.supers)
+
     def c_alt(self, a, alt):
         return self(a.arg.alt(alt))
 
-- 
2.43.0


From 559ce70ccad06b1bdf375705fdc17400aa7deec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 42/93] fix: equal kinds by identity and by referrers have
 equal hashes

---
 guppy/heapy/Classifiers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 01ac884..4f22d1a 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -149,7 +149,7 @@ class SoKind(object):
         return a == b
 
     def __hash__(self):
-        return hash(repr(self))
+        return hash(frozenset(self.kinds))
 
     def __repr__(self):
         return self.classifier.get_sokindrepr(self)
@@ -216,6 +216,9 @@ class IdentityFamily:
         # Just a possible optimization
         return self.mod.Use.idset(b.nodes & [a.arg])
 
+    def c_hash(self, a):
+        return hash(id(a.arg))
+
     def c_get_brief(self, a):
         return '<id %s>' % hex(id(a.arg))
 
@@ -877,6 +880,10 @@ class InRelFamily:
             return self._eq_args(a.arg, b.arg)
         return self.supercl is not None and self.supercl <= b
 
+    def c_hash(self, a):
+        # In accordance with _eq_args
+        return hash(frozenset(a.arg))
+
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
-- 
2.43.0


From 3a459acef8b310facc5ceedb6bf7d098ebce1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 43/93] fix: the hash of unions and intersections does not
 depend on the order of operands

---
 guppy/heapy/UniSet.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 960fe5b..86bc47f 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1152,6 +1152,10 @@ class AndFamily(Family):
     def c_disjoint3(self, a, b):
         return (a & b) is self.mod.Nothing
 
+    def c_hash(self, a):
+        # Does not depend on the order of the factors
+        return hash(frozenset(a.arg))
+
     def c_get_render(self, c):
         for kind in c.arg:
             r = kind.get_render()
@@ -1211,6 +1215,10 @@ class OrFamily(Family):
     def c_get_ckc(self, a):
         return self.mod.Use.findex(*a.arg).classifier, len(a.arg), '<'
 
+    def c_hash(self, a):
+        # Does not depend on the order of the terms
+        return hash(frozenset(a.arg))
+
     def c_get_examples(self, a, env):
         exa = [iter(env.get_examples(x)) for x in a.arg]
         while 1:
-- 
2.43.0


From 176b8b8d14f1a1ac4ba7c8a06fe79a645ad50532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 44/93] fix: look for rows of kinds in the whole table

---
 guppy/heapy/Part.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index da2a84c..60c219e 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -395,9 +395,9 @@ class Stat:
             idx = kindtab.get(row.name)
             if idx is not None:
                 res[idx] = row
-            n += 1
-            if n >= N:
-                break
+                n += 1
+                if n >= N:
+                    break
         return res
 
     def get_rows_n_and_other(self, N, sortby='Size'):
-- 
2.43.0


From 94eb60cb8653940b2ae679dea460ee700022674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 45/93] fix: dump one table only, and read it before the file
 is opened

---
 guppy/heapy/Part.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 60c219e..8b8336a 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -338,18 +338,24 @@ class Stat:
         return self.mod.load(trows)
 
     def dump(self, fn, mode='a'):
+        # Read all of the table before the file is opened, it may be where
+        # we read from; and no more, there may be other tables after it.
+        end = '.end: .loader: %s\n' % self.loader
+        trows = []
+        for r in self.get_trows():
+            if not r[-1:] == '\n':
+                r += '\n'
+            if r == end:
+                break
+            trows.append(r)
+        trows.append(end)
         if not hasattr(fn, 'write'):
             f = open(fn, mode)
         else:
             f = fn
         try:
-            for r in self.get_trows():
-                if not r[-1:] == '\n':
-                    r += '\n'
+            for r in trows:
                 f.write(r)
-            end = '.end: .loader: %s\n' % self.loader
-            if r != end:
-                f.write(end)
         finally:
             if f is not fn:
                 f.close()
-- 
2.43.0


From 5870683ebac1b39d2a5069887837dd23d090b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 46/93] fix: the header of a loaded table without rows ends at
 its end line

---
 guppy/heapy/Part.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 8b8336a..252ff3e 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -215,7 +215,7 @@ class Stat:
         self.rows = []
 
         r = self.get_next()
-        while r and not r.startswith('.r:'):
+        while r and not r.startswith(('.r:', '.end:')):
             name = r[1:r.index(':')]
             value = r[r.index(':')+1:].strip()
             try:
-- 
2.43.0


From 1c10931513fd2f383435d7fcaea3e279e27d3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 47/93] fix: do not convert names that look like numbers when
 loading a table

---
 guppy/heapy/Part.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 252ff3e..2afc03f 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -218,10 +218,8 @@ class Stat:
         while r and not r.startswith(('.r:', '.end:')):
             name = r[1:r.index(':')]
             value = r[r.index(':')+1:].strip()
-            try:
+            if name in ('count', 'size', 'numrows', 'b_count', 'b_size'):
                 value = int(value)
-            except ValueError:
-                pass
             setattr(self, name, value)
             r = self.get_next()
 
-- 
2.43.0


From 6e72f0102cd9e2ddcb1f50645a51ae4df285d6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 48/93] fix: tables with line breaks in names can be loaded
 back

---
 guppy/heapy/Part.py | 52 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 2afc03f..8d5e81d 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -177,6 +177,29 @@ class DiffFormat(Format):
         return self.load_statrow_csk(r)
 
 
+def get_trow(name, value):
+    # A line of a table in serialized form. A text that would not be read
+    # back as written gets an escaped form, marked by a ! after the name.
+    if ('\n' in value or '\r' in value or
+            name != 'r' and value != value.strip()):
+        name += '!'
+        value = value.encode('unicode_escape').decode('ascii')
+    return '.%s: %s' % (name, value)
+
+
+def parse_trow(r):
+    # The inverse of get_trow
+    name, value = r[1:].split(':', 1)
+    if name.endswith('!'):
+        name = name[:-1]
+        value = value[1:].encode('ascii').decode('unicode_escape')
+    elif name == 'r':
+        value = value[1:]
+    else:
+        value = value.strip()
+    return name, value
+
+
 class StatRow(object):
     __slots__ = 'count', 'size', 'name', 'index', 'cumulsize'
 
@@ -215,9 +238,8 @@ class Stat:
         self.rows = []
 
         r = self.get_next()
-        while r and not r.startswith(('.r:', '.end:')):
-            name = r[1:r.index(':')]
-            value = r[r.index(':')+1:].strip()
+        while r and not r.startswith(('.r:', '.r!:', '.end:')):
+            name, value = parse_trow(r)
             if name in ('count', 'size', 'numrows', 'b_count', 'b_size'):
                 value = int(value)
             setattr(self, name, value)
@@ -256,15 +278,15 @@ class Stat:
             '.timemade: %f' % self.timemade,
             '.count: %d' % count,
             '.size: %d' % size,
-            '.kindheader: %s' % self.kindheader,
-            '.kindname: %s' % self.kindname,
+            get_trow('kindheader', self.kindheader),
+            get_trow('kindname', self.kindname),
             '.numrows: %d' % len(rows),
         ]
         if getattr(self, 'b_count', None) is not None:
             trows.append('.b_count: %d' % self.b_count)
             trows.append('.b_size: %d' % self.b_size)
         for r in rows:
-            trows.append('.r: %s' % self.format.get_rowdata(r))
+            trows.append(get_trow('r', self.format.get_rowdata(r)))
         return self.mod.load(trows)
 
     def __len__(self):
@@ -327,12 +349,13 @@ class Stat:
             '.b_size: %d' % other.size,
             '.count: %d' % cumulcount,
             '.size: %d' % cumulsize,
-            '.kindheader: %s' % self.kindheader,
-            '.kindname: %s' % self.kindname,
+            get_trow('kindheader', self.kindheader),
+            get_trow('kindname', self.kindname),
             '.numrows: %d' % len(rows),
         ]
         for r in rows:
-            trows.append('.r: %d %d %s' % (r.count, r.size, r.name))
+            trows.append(get_trow('r', '%d %d %s' % (
+                r.count, r.size, r.name)))
         return self.mod.load(trows)
 
     def dump(self, fn, mode='a'):
@@ -466,9 +489,8 @@ class Stat:
         r = self.last
         if not r:
             raise IndexError('Row index out of range.')
-        if r.startswith('.r: '):
-            r = r[4:]
-            sr = self.format.load_statrow(r)
+        if r.startswith(('.r: ', '.r!: ')):
+            sr = self.format.load_statrow(parse_trow(r)[1])
 
             self.cur_index += 1
             self.rows.append(sr)
@@ -537,11 +559,11 @@ class Partition:
         yield '.timemade: %f' % self.timemade
         yield '.count: %d' % self.count
         yield '.size: %d' % self.size
-        yield '.kindname: %s' % self.kindname
-        yield '.kindheader: %s' % self.kindheader
+        yield get_trow('kindname', self.kindname)
+        yield get_trow('kindheader', self.kindheader)
         yield '.numrows: %d' % self.numrows
         for row in self.get_rows():
-            yield '.r: %s' % self.format.get_rowdata(row)
+            yield get_trow('r', self.format.get_rowdata(row))
 
     def init_format(self, FormatClass):
         self.format = FormatClass(self)
-- 
2.43.0


From cad16a572f968b3a72a20be616d61ccec7c7fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 49/93] fix: loadall ends at the end of the file

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 29f16b7..159226d 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -296,7 +296,11 @@ References
         if isinstance(f, str):
             f = open(f)
         while True:
-            yield self.load(f)
+            try:
+                stat = self.load(f)
+            except StopIteration:
+                return
+            yield stat
 
     def loadc(self, fn):
         f = open(fn, 'r', 1)
-- 
2.43.0


From 145111f4837e72764eeaf1b6bc2562f9593d18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 50/93] fix: prev of the first continuation is the printed
 object

---
 guppy/heapy/OutputHandling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index 369d470..d597fb5 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -248,6 +248,9 @@ class Printer:
         return next_lineno
 
     def _get_prev(self, mp):
+        if mp._oh_previous is self:
+            # What comes before the first continuation
+            return self.client
         return mp._oh_previous
 
     def _oh_get_start_lineno(self):
-- 
2.43.0


From 5b10a4cb97e882d4db6598e6fb29a8a90f8a64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 51/93] fix: reference patterns by size and module can be
 printed

---
 guppy/heapy/Classifiers.py | 5 +----
 guppy/heapy/UniSet.py      | 3 ---
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 4f22d1a..2463ff4 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -359,9 +359,6 @@ class IndiSizeFamily:
     def c_contains(self, a, b):
         return a.arg == self.classifier.cli.classify(b)
 
-    def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
-
     def c_get_brief(self, a):
         return '<size = %d>' % a.arg
 
@@ -1050,7 +1047,7 @@ class ModuleFamily:
         return b is a.arg
 
     def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
+        return self.mod.summary_str(type(a.arg))
 
     def c_get_brief(self, a):
         return self.mod.summary_str(type(a.arg))(a.arg)
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 86bc47f..0179e59 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1480,9 +1480,6 @@ class InvertFamily(Family):
         # ~(~a.arg) = a.arg
         return a.arg
 
-    def c_get_render(self, a):
-        return a.arg.get_render()
-
     def c_get_brief(self, a):
         n = a.arg.brief
         if (not (n.startswith('(') or n.startswith('<')) and
-- 
2.43.0


From 84830a1c7c74256eb78be2067de868b51865885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 52/93] fix: names of reference pattern rows past the 82nd
 child are read as written

---
 guppy/heapy/RefPat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 65c9c59..13872e3 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -5,10 +5,10 @@ def str_as_atr(s):
     i = 0
     while i < len(s):
         v = s[i]
-        if i + 1 < len(s) and s[i+1].isdigit():
+        if i + 1 < len(s) and s[i+1] in '0123456789':
             n = 0
             i = i + 1
-            while i < len(s) and s[i].isdigit():
+            while i < len(s) and s[i] in '0123456789':
                 n = n * 10 + int(s[i])
                 i += 1
         else:
-- 
2.43.0


From 0a26aabc10a258161bae3dfe89fb279969be29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 53/93] fix: a name that is no row of a reference pattern is
 refused

---
 guppy/heapy/RefPat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 13872e3..aed6476 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -334,6 +334,8 @@ class RefPatRow:
         return '%s%s' % (prefix, self.getsummary(self.max_str_len-len(prefix)))
 
     def getchild(self, ix):
+        if ix < 0:
+            raise IndexError(ix)
         while ix >= len(self.children) and not self.isready:
             self.rp.generate(len(self.rp.lines))
         return self.children[ix]
-- 
2.43.0


From 3946a7bd43baeecdbe5852e39a2118c9295c5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 54/93] fix: horizon calls the right destructor when a type
 calls that of its base

---
 src/heapy/horizon.c | 69 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index ebf53d1..bc68f2d 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -23,6 +23,21 @@ typedef struct _NyHorizonObject {
     NyNodeSetObject *hs;
 } NyHorizonObject;
 
+/* An object being deallocated, by the original destructor of type */
+
+typedef struct _NyHorizonDealloc {
+    struct _NyHorizonDealloc *prev;
+    PyObject *obj;
+    PyTypeObject *type;
+    destructor dealloc;
+} NyHorizonDealloc;
+
+#ifdef _MSC_VER
+#define HORIZON_THREAD_LOCAL __declspec(thread)
+#else
+#define HORIZON_THREAD_LOCAL __thread
+#endif
+
 /* Horizon Management
    The struct rm must be a static/global singleton, since it is intimately bound to patching
  */
@@ -32,17 +47,37 @@ static struct {
     PyObject *types;
 } rm;
 
+/* Deallocations in progress */
+
+static HORIZON_THREAD_LOCAL struct {
+    NyHorizonDealloc *current;
+} dm;
+
 static void horizon_patched_dealloc(PyObject *v);
 
+/* Find the original destructor of the first type, from *type on along its
+   bases, that is patched and has another one than except. The types before it
+   call the destructor of their base, or became ready while the base was patched
+   and inherited the patched destructor. */
+
 static destructor
-horizon_get_org_dealloc(PyTypeObject *t)
+horizon_get_org_dealloc(PyTypeObject **type, destructor except)
 {
-    if (!rm.types && t->tp_dealloc != horizon_patched_dealloc)
-        return t->tp_dealloc;
+    PyTypeObject *t;
 
-    PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
-    if (d)
-        return (destructor)PyLong_AsSsize_t(d);
+    for (t = *type; t; t = t->tp_base) {
+        destructor dealloc = t->tp_dealloc;
+        if (rm.types) {
+            PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
+            if (!d)
+                continue;
+            dealloc = (destructor)PyLong_AsSsize_t(d);
+        }
+        if (dealloc != horizon_patched_dealloc && dealloc != except) {
+            *type = t;
+            return dealloc;
+        }
+    }
 
     Py_FatalError("horizon_get_org_dealloc: no original destructor found");
 }
@@ -91,15 +126,35 @@ horizon_base(PyObject *v)
 }
 
 
+static void
+horizon_call_dealloc(NyHorizonDealloc *d)
+{
+    d->prev = dm.current;
+    dm.current = d;
+    d->dealloc(d->obj);
+    dm.current = d->prev;
+}
+
 static void
 horizon_patched_dealloc(PyObject *v)
 {
     NyHorizonObject *r;
+    NyHorizonDealloc d;
+    d.obj = v;
+    if (dm.current && dm.current->obj == v) {
+        /* The destructor of a type calls that of its base */
+        d.type = dm.current->type->tp_base;
+        d.dealloc = horizon_get_org_dealloc(&d.type, dm.current->dealloc);
+        horizon_call_dealloc(&d);
+        return;
+    }
     for (r = rm.horizons; r; r = r->next) {
         if (NyNodeSet_clrobj(r->hs, v) == -1)
             Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
     }
-    horizon_get_org_dealloc(horizon_base(v))(v);
+    d.type = horizon_base(v);
+    d.dealloc = horizon_get_org_dealloc(&d.type, 0);
+    horizon_call_dealloc(&d);
 }
 
 static int
-- 
2.43.0


From 3384e6f4c67c3bef97795a38defe9d7164af9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 55/93] fix: horizon notices the deallocation of heap types
 with a destructor of their own

---
 src/heapy/horizon.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index bc68f2d..22aa36c 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -45,6 +45,7 @@ typedef struct _NyHorizonDealloc {
 static struct {
     NyHorizonObject *horizons;
     PyObject *types;
+    destructor subtype_dealloc; /* what classes made by class statements have */
 } rm;
 
 /* Deallocations in progress */
@@ -116,7 +117,10 @@ static PyTypeObject *
 horizon_base(PyObject *v)
 {
     PyTypeObject *t = Py_TYPE(v);
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+    /* A heap type made from a spec may have a destructor of its own,
+       that does not call the one of its base. */
+    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE &&
+           t->tp_dealloc == rm.subtype_dealloc) {
         assert(t->tp_base);
         assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
             PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
@@ -205,6 +209,13 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
                                  kwlist,
                                  &X))
         goto err;
+    if (!rm.subtype_dealloc) {
+        PyObject *t = PyObject_CallFunction((PyObject *)&PyType_Type, "s(){}", "x");
+        if (!t)
+            goto err;
+        rm.subtype_dealloc = ((PyTypeObject *)t)->tp_dealloc;
+        Py_DECREF(t);
+    }
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
     if (!hz)
         goto err;
-- 
2.43.0


From d9dbdd2a327d0b3ca97efd26b896fa56572d87f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 56/93] fix: horizon does not overflow the stack when nested
 objects are deallocated

---
 src/heapy/horizon.c | 53 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 22aa36c..4efe614 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -32,12 +32,21 @@ typedef struct _NyHorizonDealloc {
     destructor dealloc;
 } NyHorizonDealloc;
 
+/* An object whose deallocation is delayed, to limit the recursion */
+
+typedef struct {
+    NyHorizonDealloc d;
+    int tracked;
+} NyHorizonDelayed;
+
 #ifdef _MSC_VER
 #define HORIZON_THREAD_LOCAL __declspec(thread)
 #else
 #define HORIZON_THREAD_LOCAL __thread
 #endif
 
+#define HORIZON_UNWIND_LEVEL 50
+
 /* Horizon Management
    The struct rm must be a static/global singleton, since it is intimately bound to patching
  */
@@ -52,6 +61,9 @@ static struct {
 
 static HORIZON_THREAD_LOCAL struct {
     NyHorizonDealloc *current;
+    int nesting;
+    NyHorizonDelayed *delayed;
+    Py_ssize_t ndelayed, allocdelayed;
 } dm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -130,6 +142,32 @@ horizon_base(PyObject *v)
 }
 
 
+/* The trashcan of a patched type is out of action since it is only used when
+   the type has its own destructor. Do likewise here, or else the deallocation
+   of deeply nested objects would overflow the stack. */
+
+static int
+horizon_delay(NyHorizonDealloc *d)
+{
+    NyHorizonDelayed *p;
+    if (!PyObject_IS_GC(d->obj) ||
+        Py_TYPE(d->obj)->tp_dealloc != horizon_patched_dealloc)
+        return 0;
+    if (dm.ndelayed >= dm.allocdelayed) {
+        Py_ssize_t n = dm.allocdelayed ? dm.allocdelayed * 2 : 16;
+        p = PyMem_Realloc(dm.delayed, n * sizeof(*p));
+        if (!p)
+            return 0;
+        dm.delayed = p;
+        dm.allocdelayed = n;
+    }
+    p = &dm.delayed[dm.ndelayed++];
+    p->d = *d;
+    p->tracked = PyObject_GC_IsTracked(d->obj);
+    PyObject_GC_UnTrack(d->obj);
+    return 1;
+}
+
 static void
 horizon_call_dealloc(NyHorizonDealloc *d)
 {
@@ -158,7 +196,22 @@ horizon_patched_dealloc(PyObject *v)
     }
     d.type = horizon_base(v);
     d.dealloc = horizon_get_org_dealloc(&d.type, 0);
+    if (dm.nesting >= HORIZON_UNWIND_LEVEL && horizon_delay(&d))
+        return;
+    dm.nesting++;
     horizon_call_dealloc(&d);
+    if (dm.nesting == HORIZON_UNWIND_LEVEL) {
+        while (dm.ndelayed) {
+            NyHorizonDelayed p = dm.delayed[--dm.ndelayed];
+            if (p.tracked)
+                PyObject_GC_Track(p.d.obj);
+            horizon_call_dealloc(&p.d);
+        }
+        PyMem_Free(dm.delayed);
+        dm.delayed = 0;
+        dm.allocdelayed = 0;
+    }
+    dm.nesting--;
 }
 
 static int
-- 
2.43.0


From e2f4167cd3829739ded096b06d54d6ea5aaafc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 57/93] fix: rendering the empty set does not recurse forever

---
 guppy/heapy/UniSet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 0179e59..edd1e51 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1846,6 +1846,10 @@ class EmptyFamily(IdentitySetFamily):
     def c_get_brief(self, a):
         return '<Nothing>'
 
+    def c_get_render(self, a):
+        # It is its own kind, so the kind can not provide it
+        return self.mod.summary_str.str_address
+
     def c_repr(self, a):
         return '%s%s' % (self.mod.Use.reprefix, 'Nothing')
 
-- 
2.43.0


From c273d1018754ffa6c650a704d45ec278250af0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 58/93] fix: types without a constructor cannot be instantiated
 uninitialised

---
 src/include/guppy.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/include/guppy.h b/src/include/guppy.h
index 9aeb9e2..6125013 100644
--- a/src/include/guppy.h
+++ b/src/include/guppy.h
@@ -1,9 +1,6 @@
 #ifndef GUPPY_H_INCLUDED
 
 #define NYFILL(t) {                      \
-    if (!t.tp_new) {                     \
-        t.tp_new = PyType_GenericNew;    \
-    }                                    \
     if (PyType_Ready(&t) < 0) return -1; \
 }
 
-- 
2.43.0


From 7749353260ef6342d7f11b0da6e6528e640de81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 59/93] fix: a comparison argument that cannot be encoded
 raises an error

---
 src/heapy/classifier.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 0125d96..3cfc955 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -249,6 +249,8 @@ cli_cmp_as_int(PyObject *cmp)
         return -1;
     }
     s = PyUnicode_AsUTF8(cmp);
+    if (!s)
+        return -1;
     for (i = 0; (c = cmp_strings[i]); i++) {
         if (strcmp(c, s) == 0)
             return i;
-- 
2.43.0


From c48fdd2ee99dace0e2c8e1ea97ecebd14e7cd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 60/93] fix: partition releases a borrowed list on errors no
 more

---
 src/heapy/classifier.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 3cfc955..ffe1853 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -105,6 +105,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
         if (!sp)
             goto Err;
         if (PyObject_SetItem(ta->map, kind, sp) == -1) {
+            Py_DECREF(sp);
             goto Err;
         };
         Py_DECREF(sp);
@@ -114,7 +115,6 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     Py_DECREF(kind);
     return 0;
 Err:
-    Py_XDECREF(sp);
     Py_XDECREF(kind);
     return -1;
 }
-- 
2.43.0


From 3a923a863b7fc495ddb07edde37b7926b1410fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 61/93] fix: cli_findex refuses an ordering comparison the
 classifier does not have

---
 src/heapy/hv_cli_findex.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index ea78882..1a2511c 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -85,8 +85,10 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
 {
     PyObject *r;
     FindexObject *s, tmp;
+    NyObjectClassifierObject *cli;
     Py_ssize_t numalts;
     Py_ssize_t i;
+    int cmp;
     if (!PyArg_ParseTuple(args, "O!O!:cli_findex",
                           &PyTuple_Type, &tmp.alts,
                           &PyDict_Type, &tmp.memo)) {
@@ -111,7 +113,13 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
             PyErr_SetString(PyExc_TypeError, "Tuple of triples with [2] a STRING expected.");
             return 0;
         }
-        if (cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2)) == -1) {
+        cmp = cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2));
+        if (cmp == -1) {
+            return 0;
+        }
+        cli = (void *)PyTuple_GET_ITEM(ckc, 0);
+        if (!(cmp == CLI_EQ || cmp == CLI_NE || cli->def->cmp_le)) {
+            PyErr_SetString(PyExc_ValueError, "This classifier supports only equality selection.");
             return 0;
         }
     }
-- 
2.43.0


From 970826f551dec6c963a92128218f0b055d20d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 62/93] fix: cli_findex checks both allocations

---
 src/heapy/hv_cli_findex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index 1a2511c..1ed0adc 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -132,7 +132,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     Py_INCREF(tmp.memo);
     s->kinds = PyTuple_New(numalts);
     s->cmps = PyTuple_New(numalts);
-    if (!s->kinds)
+    if (!s->kinds || !s->cmps)
         goto Err;
     for (i = 0; i < numalts; i++) {
         PyObject *ckc = PyTuple_GET_ITEM(tmp.alts, i);
-- 
2.43.0


From 2635e076147d9956ac0963e3dc47a9f3e358f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 63/93] fix: _bs checks the number of its arguments

---
 src/sets/bitset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 3e3eff3..aae7bc9 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -4412,7 +4412,7 @@ NyBitSet_Form(PyObject *args)
     char *s;
     Py_ssize_t len,sz;
     int flags;
-    if (!(args && PyTuple_Check(args)) && PyTuple_GET_SIZE(args) == 2) {
+    if (!(args && PyTuple_Check(args) && PyTuple_GET_SIZE(args) == 2)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form() requires exactly 2 arguments");
         return 0;
     }
-- 
2.43.0


From af2b018f5972a1383d424aed69cafa532d179864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 64/93] fix: _bs refuses flags that do not fit

---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index aae7bc9..bf0d477 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -4421,6 +4421,8 @@ NyBitSet_Form(PyObject *args)
         return 0;
     }
     flags = PyLong_AsLong(PyTuple_GET_ITEM(args, 0));
+    if (flags == -1 && PyErr_Occurred())
+        return 0;
     str = PyTuple_GET_ITEM(args, 1);
     if (!PyBytes_Check(str)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form(): 2nd arg must be bytes");
-- 
2.43.0


From 9fe2741cc194595f12a92bc3d58967f73e4f5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 65/93] fix: deleting limitframe raises an error

---
 src/heapy/hv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 53f884f..c57e75f 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1503,7 +1503,10 @@ static int
 hv_set_limitframe(NyHeapViewObject *self, PyObject *arg, void *unused)
 {
     PyObject *orf = self->limitframe;
-    if (arg == Py_None) {
+    if (!arg) {
+        PyErr_SetString(PyExc_TypeError, "set_limitframe: cannot delete limitframe");
+        return -1;
+    } else if (arg == Py_None) {
         self->limitframe = 0;
     } else if (PyFrame_Check(arg)) {
         self->limitframe = arg;
-- 
2.43.0


From e84ada0472a383df1cdbd25453f8b2ea2a277089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 66/93] fix: a heap view without a root sees the heap of None

---
 src/heapy/hv.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index c57e75f..a6812b9 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -849,6 +849,13 @@ typedef struct {
     PyObject *to_visit;
 } IterTravArg;
 
+/* A deleted root reads as None */
+static PyObject *
+hv_root(NyHeapViewObject *hv)
+{
+    return hv->root ? hv->root : Py_None;
+}
+
 static int
 iter_rec(PyObject *obj, IterTravArg *ta) {
     int r;
@@ -877,7 +884,7 @@ NyHeapView_iterate(NyHeapViewObject *hv, int (*visit)(PyObject *, void *),
     ta.to_visit = PyList_New(0);
     if (!(ta.hs && ta.to_visit))
         goto err;
-    r = iter_rec(ta.hv->root, &ta);
+    r = iter_rec(hv_root(ta.hv), &ta);
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
@@ -947,7 +954,7 @@ hv_heap(NyHeapViewObject *self, PyObject *args, PyObject *kwds)
     ta.to_visit = PyList_New(0);
     if (!(ta.visited && ta.to_visit))
         goto err;
-    if (hv_heap_rec(ta.hv->root, &ta) == -1)
+    if (hv_heap_rec(hv_root(ta.hv), &ta) == -1)
         goto err;
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
@@ -1567,7 +1574,7 @@ typedef struct {
 
 static int
 rg_rec(PyObject *obj, RetaTravArg *ta) {
-    if (obj == (PyObject *)ta->rg || obj == ta->hv->root)
+    if (obj == (PyObject *)ta->rg || obj == hv_root(ta->hv))
         return 0;
     return PyList_Append(ta->to_visit, obj);
 }
@@ -1606,7 +1613,7 @@ hv_update_referrers(NyHeapViewObject *self, PyObject *args)
           ta.trace_stack && ta.trace_res && ta.sentinel))
         goto err;
 
-    if (PyList_Append(ta.to_visit, ta.hv->root) == -1)
+    if (PyList_Append(ta.to_visit, hv_root(ta.hv)) == -1)
         goto err;
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
@@ -1654,7 +1661,7 @@ err_inner_inner:
 
             if (xt->xt_trav_code == XT_NO) {
                 is_target = ta.targetset ? NyNodeSet_hasobj(ta.targetset, obj) :
-                                           obj != ta.hv->root;
+                                           obj != hv_root(ta.hv);
                 if (!is_target)
                     goto next;
                 if (is_target == -1)
@@ -1676,7 +1683,7 @@ err_inner_inner:
             if (!do_trace) {
                 if (is_target == -1) {
                     is_target = ta.targetset ? NyNodeSet_hasobj(ta.targetset, obj) :
-                                               obj != ta.hv->root;
+                                               obj != hv_root(ta.hv);
                     if (is_target == -1)
                         goto err_inner;
                 }
-- 
2.43.0


From 9906308b40004fe6c049edb0851394f095cf0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 67/93] fix: the type classifier compares kinds that are not
 types

---
 src/heapy/hv_cli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv_cli.c b/src/heapy/hv_cli.c
index 665f63f..755c9b1 100644
--- a/src/heapy/hv_cli.c
+++ b/src/heapy/hv_cli.c
@@ -59,8 +59,8 @@ hv_cli_type_classify(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cli_type_le(PyObject * self, PyObject *a, PyObject *b)
 {
-    return (a == b) || PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b);
-
+    return (a == b) || (PyType_Check(a) && PyType_Check(b) &&
+                        PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b));
 }
 
 static NyObjectClassifierDef hv_cli_type_def = {
-- 
2.43.0


From 8d8ca6463ca572dbfe66b7041d334463024540f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 68/93] fix: NodeGraph passes on an error of the truth value of
 is_mapping

---
 src/heapy/nodegraph.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index d8944ca..ecd3aa1 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -964,8 +964,13 @@ ng_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     ng = NyNodeGraph_SubtypeNew(type);
     if (!ng)
         return 0;
-    if (is_mapping && PyObject_IsTrue(is_mapping)) {
-        ng->is_mapping = 1;
+    if (is_mapping) {
+        int r = PyObject_IsTrue(is_mapping);
+        if (r == -1) {
+            Py_DECREF(ng);
+            return 0;
+        }
+        ng->is_mapping = r;
     }
     if (iterable && iterable != Py_None && NyNodeGraph_Update(ng, iterable) == -1) {
         Py_DECREF(ng);
-- 
2.43.0


From 1d2d227ab9572339567e05296f38d36b4f30f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 69/93] fix: a heap view is collected with a cycle through its
 hiding tag

---
 src/heapy/hv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index a6812b9..58bbe58 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -125,6 +125,7 @@ hv_gc_traverse(NyHeapViewObject *hv, visitproc visit, void *arg)
 {
     Py_VISIT(hv->root);
     Py_VISIT(hv->limitframe);
+    Py_VISIT(hv->_hiding_tag_);
     Py_VISIT(hv->static_types);
     Py_VISIT(hv->weak_type_callback);
 
-- 
2.43.0


From df12211b7a307b2d48d9b0fccb687f823d3e9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 70/93] fix: the data of a user defined classifier has no empty
 items

---
 src/heapy/hv_cli_user.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/heapy/hv_cli_user.c b/src/heapy/hv_cli_user.c
index 0c449bc..f153c10 100644
--- a/src/heapy/hv_cli_user.c
+++ b/src/heapy/hv_cli_user.c
@@ -11,11 +11,6 @@ typedef struct {
     PyObject *cond_kind;
     PyObject *classify;
     PyObject *memoized_kind;
-    NyNodeGraphObject *rg;
-    NyNodeSetObject *norefer;
-    PyObject *dict;
-
-
 } UserObject;
 
 static PyObject *
-- 
2.43.0


From 8ee30e9ca263406a1695467b7c9e61b23915609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 71/93] fix: an allocation failure in making a mutable bitset
 is an error

---
 src/sets/bitset.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index bf0d477..3261cca 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -798,9 +798,11 @@ mutbitset_initset(NyMutBitSetObject *v, NyImmBitSetObject *set)
         sf->hi = set->ob_field + Py_SIZE(set);
     } else {
         sf->set = immbitset_realloc(0, 1);
-        sf->lo = sf->hi = sf->set->ob_field;
-        if (!sf->set)
+        if (!sf->set) {
+            v->root->cur_size = 0;
             return -1;
+        }
+        sf->lo = sf->hi = sf->set->ob_field;
     }
     return 0;
 }
-- 
2.43.0


From 5d20e46602e27a7a4c52aae2f7f8ca86267fc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 72/93] fix: an allocation failure in making a node graph
 iterator is an error

---
 src/heapy/nodegraph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index ecd3aa1..2f81ab3 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -579,7 +579,7 @@ PyObject *
 ng_iter(NyNodeGraphObject *v)
 {
     NyNodeGraphIterObject *iter = PyObject_GC_New(NyNodeGraphIterObject, &NyNodeGraphIter_Type);
-    if (!v)
+    if (!iter)
         return 0;
     iter->nodegraph = v;
     Py_INCREF(v);
-- 
2.43.0


From 14954fc5cee8db8dec8165a13c5384b82f2e9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 73/93] fix: a node graph keeps its edges when they cannot be
 reallocated

---
 src/heapy/nodegraph.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 2f81ab3..0cb8e04 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -168,12 +168,13 @@ NyNodeGraph_AddEdge(NyNodeGraphObject *ng, PyObject *src, PyObject *tgt)
 
     if (ng->used_size >= ng->allo_size) {
         Py_ssize_t allo = roundupsize(ng->used_size + 1);
-        PyMem_RESIZE(ng->edges, NyNodeGraphEdge, allo);
-        if (!ng->edges) {
-            ng->used_size = ng->allo_size = 0;
+        NyNodeGraphEdge *edges = ng->edges;
+        PyMem_RESIZE(edges, NyNodeGraphEdge, allo);
+        if (!edges) {
             PyErr_NoMemory();
             return -1;
         }
+        ng->edges = edges;
         ng->allo_size = allo;
     }
     Py_INCREF(src);
@@ -235,7 +236,11 @@ ng_remove_dups(NyNodeGraphObject *ng)
 static void
 ng_trim(NyNodeGraphObject *ng)
 {
-    PyMem_RESIZE(ng->edges, NyNodeGraphEdge, ng->used_size);
+    NyNodeGraphEdge *edges = ng->edges;
+    PyMem_RESIZE(edges, NyNodeGraphEdge, ng->used_size);
+    if (!edges)
+        return;
+    ng->edges = edges;
     ng->allo_size = ng->used_size;
 }
 
-- 
2.43.0


From 876a291cef80a8385c14535affbc4b39aa164996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 74/93] fix: a type that could not be registered does not stay
 in the table

---
 src/heapy/hv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 58bbe58..f0fc335 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -407,7 +407,6 @@ hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **
         return 0;
     }
     memset(xt, 0, sizeof(ExtraType));
-    *xtp = xt;
     xt->xt_hv = (void *)hv;
     xt->xt_type = type;
     xt->xt_weak_type = PyWeakref_NewRef((PyObject *)type, hv->weak_type_callback);
@@ -415,6 +414,7 @@ hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **
         PyMem_Del(xt);
         return 0;
     }
+    *xtp = xt;
     return xt;
 }
 
-- 
2.43.0


From 289b3a327d2df1a058f6c6bdd63ed20049cc198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 75/93] fix: an error in registering the type of an object is
 passed on

---
 src/heapy/hv.c         | 20 ++++++++++++++------
 src/heapy/hv_cli_rel.c |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index f0fc335..6c52e24 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -620,6 +620,8 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 {
     PyTypeObject *type = Py_TYPE(obj);
     ExtraType *xt = hv_extra_type(hv, type);
+    if (xt == &xt_error)
+        return -1;
     if (xt->xt_trav_code == XT_HE) {
         Py_ssize_t offs = xt->xt_he_offs;
         PyObject **phe = (PyObject **)((char *)obj + offs);
@@ -643,11 +645,12 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cms_rec(PyObject *obj, CMSTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj)) {
+    int hidden = hv_is_obj_hidden(ta->hv, obj);
+    if (hidden > 0) {
         if (PyList_Append(ta->rm, obj) == -1)
             return -1;
     }
-    return 0;
+    return hidden < 0 ? hidden : 0;
 }
 
 
@@ -921,8 +924,10 @@ typedef struct {
 
 static int
 hv_heap_rec(PyObject *obj, HeapTravArg *ta) {
-    int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r < 0)
+        return r;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
@@ -1659,6 +1664,8 @@ err_inner_inner:
             // Recurse in
             int is_target = -1;
             ExtraType *xt = hv_extra_type(ta.hv, Py_TYPE(obj));
+            if (xt == &xt_error)
+                goto err_inner;
 
             if (xt->xt_trav_code == XT_NO) {
                 is_target = ta.targetset ? NyNodeSet_hasobj(ta.targetset, obj) :
@@ -1751,8 +1758,9 @@ int dummy;
 static int
 urco_traverse(PyObject *obj, URCOTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj))
-        return 0;
+    int hidden = hv_is_obj_hidden(ta->hv, obj);
+    if (hidden)
+        return hidden < 0 ? hidden : 0;
     if (NyNodeGraph_AddEdge(ta->rg, obj, ta->retainer) == -1)
         return -1;
     ta->num++;
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 2f4511b..aa358c8 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -318,6 +318,8 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
             continue;
         crva.hr.src = cur->tgt;
         xt = hv_extra_type(self->hv, Py_TYPE(crva.hr.src));
+        if (xt == &xt_error)
+            goto Err;
         assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
 
-- 
2.43.0


From 86ad1a92f92d9f0f56dbc589524855a9df94f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 76/93] fix: HeapView sets an error when its table cannot be
 allocated

---
 src/heapy/hv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 6c52e24..f79677c 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -755,8 +755,10 @@ NyHeapView_SubTypeNew(PyTypeObject *type, PyObject *root, PyTupleObject *heapdef
         goto err;
 
     hv->xt_table = PyMem_New(ExtraType *, hv->xt_size);
-    if (!hv->xt_table)
+    if (!hv->xt_table) {
+        PyErr_NoMemory();
         goto err;
+    }
     for (i = 0; i < hv->xt_size; i++)
         hv->xt_table[i] = 0;
 
-- 
2.43.0


From 1f9d41690600747ffd1b8a2d9da52f663498e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 77/93] fix: HeapView refuses a capsule without a name

---
 src/heapy/hv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index f79677c..e2b46ab 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -711,7 +711,7 @@ hv_add_heapdefs_tuple(NyHeapViewObject *hv, PyTupleObject *heapdefs)
             return -1;
         }
         const char *name = PyCapsule_GetName(obj);
-        const char *dot = strrchr(name, '.');
+        const char *dot = name ? strrchr(name, '.') : 0;
         if (!dot || strcmp(dot, "._NyHeapDefs_")) {
             PyErr_SetString(PyExc_TypeError, "heapdefs must be named <package name>._NyHeapDefs_");
             return -1;
-- 
2.43.0


From 17abb47f0a086fd840b5999426974d99661b5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 78/93] fix: a bit set stays as it is when it cannot be
 reallocated

---
 src/sets/bitset.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 3261cca..90a03aa 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -731,6 +731,8 @@ NyImmBitSet_SubtypeNewArg(PyTypeObject *type, PyObject *v)
     if (vt == BITSET) {
         NyImmBitSetObject *bs = (NyImmBitSetObject *)v;
         NyImmBitSetObject *ret = NyImmBitSet_SubtypeNew(type, Py_SIZE(bs));
+        if (!ret)
+            return 0;
         memcpy(ret->ob_field, bs->ob_field, sizeof(NyBitField) * Py_SIZE(bs));
         return ret;
     }
@@ -911,6 +913,8 @@ union_realloc(NyUnionObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * size);
+        if (!ret)
+            return (void *)PyErr_NoMemory();
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), size);
         return ret;
     }
@@ -968,6 +972,8 @@ immbitset_realloc(NyImmBitSetObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * upsize);
+        if (!ret)
+            return (void *)PyErr_NoMemory();
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), upsize);
         return ret;
     }
@@ -1093,8 +1099,13 @@ mutbitset_split_ins1(NyMutBitSetObject *v, NySetField *sf, NyBitField *f, NyBit
     if (!nsf)
         return 0;
     sf = v->root->ob_field + sfpos;
-    if (sf_realloc(nsf, b_size) == -1)
+    if (sf_realloc(nsf, b_size) == -1) {
+        /* Take the new, still empty, set field out again */
+        NyUnionObject *root = v->root;
+        sfp_move(nsf, nsf + 1, &root->ob_field[root->cur_size] - (nsf + 1));
+        root->cur_size--;
         return 0;
+    }
     nsf->lo = nsf->set->ob_field + (Py_SIZE(nsf->set) - b_size) / 2;
     nsf->hi = nsf->lo + b_size;
     fp_move(nsf->lo, f, b_size);
-- 
2.43.0


From 34721de194a0c9deb4176bd8075964cb6d942d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 79/93] fix: an object that cannot be popped is released

---
 src/heapy/hv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index e2b46ab..d12c96c 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -107,8 +107,10 @@ hv_PyList_Pop(PyObject *list)
         PyObject *r = PyList_GetItem(list, size - 1);
         Py_XINCREF(r);
         if (r)
-            if (PyList_SetSlice(list, size - 1, size, 0) < 0)
+            if (PyList_SetSlice(list, size - 1, size, 0) < 0) {
+                Py_DECREF(r);
                 return 0;
+            }
 
         return r;
     } else {
-- 
2.43.0


From 033e96075ee4f0711f00abc3d0676477eb3a8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 80/93] fix: a horizon without a node set is not linked

---
 src/heapy/horizon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 4efe614..b2d4796 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -257,6 +257,7 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 
     PyObject *X;
     NyHorizonObject *hz = 0;
+    NyNodeSetObject *hs;
     static char *kwlist[] = {"X", 0};
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O:Horizon.__new__",
                                  kwlist,
@@ -269,14 +270,17 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
         rm.subtype_dealloc = ((PyTypeObject *)t)->tp_dealloc;
         Py_DECREF(t);
     }
+    hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
+    if (!hs)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
-    if (!hz)
+    if (!hz) {
+        Py_DECREF(hs);
         goto err;
+    }
+    hz->hs = hs;
     hz->next = rm.horizons;
     rm.horizons = hz;
-    hz->hs = NyMutNodeSet_NewFlags(0); /* I.E. not NS_HOLDOBJECTS */
-    if (!hz->hs)
-        goto err;
     if (iterable_iterate((PyObject *)X, (visitproc)horizon_update_trav, hz) == -1 ||
         horizon_update_trav((PyObject *)hz, hz) == -1)
         goto err;
-- 
2.43.0


From 27eecaf724fb1788ad16a239cd7d402d1564fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 81/93] fix: an allocation failure in slicing a bit set is an
 error

---
 src/sets/bitset.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 90a03aa..1a1d6b6 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3002,6 +3002,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field;
         i = 0;
         for (s = ss; s < se; s++) {
@@ -3042,6 +3044,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field + nfields - 1;
         i = 0;
         for (s = se; --s >= ss;) {
-- 
2.43.0


From dd8ae3b7200f661ee6782237169d5b7ab1363f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 82/93] fix: an error in the size of a bit set is passed on

---
 src/sets/bitset.c  | 10 ++++++++--
 src/sets/nodeset.c |  8 ++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 1a1d6b6..e52f747 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -4117,7 +4117,10 @@ mutbitset_indisize(NyMutBitSetObject *v)
         size += Py_TYPE(v->root)->tp_basicsize +
         Py_SIZE(v->root) * Py_TYPE(v->root)->tp_itemsize;
      for (i = 0; i < v->root->cur_size; i++) {
-         size += immbitset_indisize(v->root->ob_field[i].set);
+         size_t z = immbitset_indisize(v->root->ob_field[i].set);
+         if (z == (size_t)-1)
+             return z;
+         size += z;
      }
     return size;
 }
@@ -4140,7 +4143,10 @@ anybitset_indisize(PyObject *obj)
 static PyObject *
 anybitset_get_indisize(NyMutBitSetObject *v)
 {
-    return PyLong_FromSsize_t(anybitset_indisize((PyObject *)v));
+    size_t size = anybitset_indisize((PyObject *)v);
+    if (size == (size_t)-1)
+        return 0;
+    return PyLong_FromSsize_t(size);
 }
 
 char mutbitset_is_immutable_doc[] =
diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 3b7c911..bc58c89 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -428,8 +428,12 @@ nodeset_indisize(PyObject *v)
 {
     NyNodeSetObject *ns = (void *)v;
     size_t r = generic_indisize(v);
-    if (r != (size_t)-1 && NyMutNodeSet_Check(v))
-        r += anybitset_indisize(ns->u.bitset);
+    if (r != (size_t)-1 && NyMutNodeSet_Check(v)) {
+        size_t z = anybitset_indisize(ns->u.bitset);
+        if (z == (size_t)-1)
+            return z;
+        r += z;
+    }
     return r;
 }
 
-- 
2.43.0


From 9e935cbaef94a10d3f42a454e8c57a8c59307d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 83/93] fix: a kind is not released twice when the set of kinds
 cannot be made immutable

---
 src/heapy/hv_cli_rcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 133ae99..eee57e2 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -118,7 +118,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
             goto Err;
         if (NyNodeSet_setobj(Ri, kind) == -1)
             goto Err;
-        Py_DECREF(kind);
+        Py_CLEAR(kind);
     }
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
-- 
2.43.0


From c227d0f8dcbb209da99136263593f43fe1e4aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 84/93] fix: the hiding tag of a dict is looked up without
 comparing foreign keys

---
 src/heapy/heapyc.c   |  1 +
 src/heapy/hv.c       |  5 ++---
 src/heapy/stdtypes.c | 20 +++++++++++++++++++-
 src/heapy/stdtypes.h |  3 +++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/heapy/heapyc.c b/src/heapy/heapyc.c
index d9279fa..91e3ec3 100644
--- a/src/heapy/heapyc.c
+++ b/src/heapy/heapyc.c
@@ -35,6 +35,7 @@ char heapyc_doc[] =
 #include "../sets/nodeset.h"
 #include "hpinit.h"
 #include "heapdef.h"
+#include "stdtypes.h"
 #include "heapy.h"
 #include "classifier.h"
 #include "nodegraph.h"
diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index d12c96c..80ba7f5 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -542,7 +542,7 @@ static int
 hv_is_dict_hiding(NyHeapViewObject *hv, PyObject *obj)
 {
     PyObject **dp = _PyObject_GetDictPtr(obj);
-    return dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) == hv->_hiding_tag_;
+    return dp && *dp && NyDict_IsHiding(*dp, hv->_hiding_tag_);
 }
 
 static int
@@ -568,8 +568,7 @@ xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
             // hidden object, because Py_TPFLAGS_INLINE_VALUES will traverse
             // into the values of the dict, ignoring the _hiding_tag_ handling
             // in stdtypes.c
-            if (PyDict_GetItem((PyObject *)dict, _hiding_tag__name) ==
-                    xt->xt_hv->_hiding_tag_)
+            if (NyDict_IsHiding((PyObject *)dict, xt->xt_hv->_hiding_tag_))
                 return 0;
         }
 #endif
diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 3cd6aae..d650498 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -73,11 +73,29 @@ dict_relate(NyHeapRelate *r)
     return dict_relate_kv(r, r->src, NYHR_INDEXKEY, NYHR_INDEXVAL);
 }
 
+/* The keys of a dict may be of any type. They are not asked to compare
+   themselves, since they could then change the objects being traversed. */
+
+int
+NyDict_IsHiding(PyObject *dict, PyObject *_hiding_tag_)
+{
+    PyObject *pk, *pv;
+    Py_ssize_t i = 0;
+    while (PyDict_Next(dict, &i, &pk, &pv)) {
+        if (pv == _hiding_tag_ &&
+            (pk == _hiding_tag__name ||
+             (PyUnicode_Check(pk) &&
+              PyUnicode_CompareWithASCIIString(pk, "_hiding_tag_") == 0)))
+            return 1;
+    }
+    return 0;
+}
+
 static int
 dict_traverse(NyHeapTraverse *ta)
 {
     PyObject *v = (void *)ta->obj;
-    if (PyDict_GetItem(v, _hiding_tag__name) == ta->_hiding_tag_)
+    if (NyDict_IsHiding(v, ta->_hiding_tag_))
         return 0;
 
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 13
diff --git a/src/heapy/stdtypes.h b/src/heapy/stdtypes.h
index fe12685..0c098d0 100644
--- a/src/heapy/stdtypes.h
+++ b/src/heapy/stdtypes.h
@@ -18,4 +18,7 @@ typedef struct {
 } mappingproxyobject;
 
 
+/* Whether dict has the given _hiding_tag_ */
+int NyDict_IsHiding(PyObject *dict, PyObject *_hiding_tag_);
+
 #endif /* NY_STDDEFS_INCLUDED */
-- 
2.43.0


From 3130f6d350eb06c0fd9704f324d10b283f30a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 85/93] fix: a dotted tree keeps tags with several quotes
 before a dot

---
 guppy/gsl/DottedTree.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 1b4a229..80d4b00 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -115,8 +115,8 @@ class _GLUECLAMP_:
             else:
                 break
         for (i, t) in enumerate(tag):
-            if (t.startswith(quotechar+dotchar) or
-                    t.startswith(quotechar+quotechar+dotchar)):
+            if (t.startswith(quotechar) and
+                    t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
         if tag == ['']:
             tag = '\n'
@@ -173,8 +173,7 @@ class _GLUECLAMP_:
         dotchar, quotechar = self.dotchar, self.quotechar
         tag = tag.split('\n')
         for (i, t) in enumerate(tag):
-            if (t.startswith(dotchar) or
-                    t.startswith(quotechar + dotchar)):
+            if t.lstrip(quotechar).startswith(dotchar):
                 tag[i] = quotechar + t
         tag = '\n'.join(tag)
         tag = dotchar*depth+tag
-- 
2.43.0


From b64a99159983c2440ad61be169b3c8f297eb4620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 86/93] fix: a dotted tree keeps empty tags

---
 guppy/gsl/DottedTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 80d4b00..7846f4f 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -118,7 +118,7 @@ class _GLUECLAMP_:
             if (t.startswith(quotechar) and
                     t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
-        if tag == ['']:
+        if tag == [''] and pos == 0:
             tag = '\n'
         else:
             tag = '\n'.join(tag)
@@ -162,7 +162,9 @@ class _GLUECLAMP_:
         li = []
 
         def unparse(depth, sexpr):
-            li.append(self.unparse_tag(depth, sexpr[0]))
+            # A blank first line would be read as a newline
+            if depth or sexpr[0] or len(sexpr) == 1:
+                li.append(self.unparse_tag(depth, sexpr[0]))
             for x in sexpr[1:]:
                 unparse(depth+1, x)
 
-- 
2.43.0


From 7685f2edd0acad74facea7329a53d1fcc9086eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 87/93] fix: simplifying a concatenation keeps a union in it as
 one item

---
 guppy/etc/RE.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 8b113e7..354fc48 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -527,8 +527,7 @@ class Union(RE):
             c.apseq(ap)
 
     def apseqatoms(self, ap):
-        for x in self:
-            x.apseqatoms(ap)
+        ap(self)
 
     def get_words_of_length_memoized(self, N, memo):
         xs = []
-- 
2.43.0


From bbdbac5ddc8cf6dc0fe88a718676bb38a5917567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 88/93] fix: choosing rectangles compares sums without the cmp
 of Python 2

---
 guppy/etc/RE_Rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/RE_Rect.py b/guppy/etc/RE_Rect.py
index d2f62e9..e663533 100644
--- a/guppy/etc/RE_Rect.py
+++ b/guppy/etc/RE_Rect.py
@@ -104,7 +104,7 @@ def cmp_gauged(xs, ys, gauges):
     for gauge in gauges:
         gx = sum_gauge(gauge, xs)
         gy = sum_gauge(gauge, ys)
-        c = cmp(gx, gy)
+        c = gx - gy
         if c:
             return c
     return 0
-- 
2.43.0


From de573f9cb671253cdb51176bc429adb3f69d26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 89/93] fix: solving an automaton keeps the loops back to its
 start state

---
 guppy/etc/RE.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 354fc48..c6c0c0b 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -925,7 +925,12 @@ class RegularSystem:
         # The equation system is now solved
         # The result is in Final term of Start equation
 
-        return X[Start][Final]
+        # (Adler's theorem, if it refers to itself)
+
+        Ts = X[Start]
+        if Start in Ts:
+            return Ts[Start]('*') + Ts[Final]
+        return Ts[Final]
 
 
 Nothing = Union()
-- 
2.43.0


From 946b8a73fd184129ca4af20be43e3bc89b7453a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 90/93] fix: minimizing an automaton compares its states by
 value

---
 guppy/etc/FSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/FSA.py b/guppy/etc/FSA.py
index deb2847..81cd2e1 100644
--- a/guppy/etc/FSA.py
+++ b/guppy/etc/FSA.py
@@ -119,7 +119,7 @@ class FiniteAutomaton:
                 for a in dp:
                     dpa = dp[a]
                     dqa = dq[a]
-                    if dpa is not dqa:
+                    if dpa != dqa:
                         dpadqa = (dpa, dqa)
                         if dpadqa in PS:
                             dps.append(dpadqa)
-- 
2.43.0


From d6adf355bf8ab3643f1257b0bc18f74b39dd8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 91/93] fix: the first frame of a thread without frames is
 refused

---
 src/heapy/rootstate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 238f1ba..9a07068 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -610,7 +610,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
-                                Py_DECREF(current_frame);
+                                Py_XDECREF(current_frame);
 #else
                                 for (frame = ts->frame; frame; frame = frame->f_back) {
                                     numframes++;
-- 
2.43.0


From dae50e5a867960f3345aefc6d465fae01e8be873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 92/93] fix: getting a frame by its name does not leak the
 frame that called it

---
 src/heapy/rootstate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 9a07068..c278cff 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -603,6 +603,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     PyFrameObject *next_frame = PyFrame_GetBack(frame);
                                     numframes--;
                                     if (numframes == frameno) {
+                                        Py_XDECREF(next_frame);
                                         Py_DECREF(current_frame);
                                         Py_DECREF(name);
                                         return (PyObject *)frame;
-- 
2.43.0


From 745e55555bce542d9d9d2e4bc3d7281aeb71eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 93/93] fix: a changed default_reprefix is seen by the session

---
 guppy/heapy/Use.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 159226d..a17afde 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -20,7 +20,9 @@ class _GLUECLAMP_(guppy.etc.Glue.Interface):
                  'warnings', 'Stat'
                  )
 
-    default_reprefix = 'hpy().'
+    # (Not a class attribute, it would be found before a changed value)
+    def _get_default_reprefix(self):
+        return 'hpy().'
 
     def _get_gcobjs(self):
         return self.Nothing
-- 
2.43.0

