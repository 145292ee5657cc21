From a32bebe73eeeb5fe680b54d704df2e90906c09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 01/36] fix: pset.add of an element whose hash collides with a
 member's

The collision branch never bound new_idx and died with UnboundLocalError.
---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From 0508c8c1d6f82d5a0a87e1fe3dbce2b25d936bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 02/36] fix: pdict.set of a key whose hash collides with
 another key's

The collision walk never advanced (infinite loop) and never bound new_idx.
---
 pcollections/_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..c37baab 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -205,10 +205,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From 2a58184e0d0342bc0d74305797c383118a67c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 03/36] fix: slices of plist and tlist with a zero stop or a
 negative step

l[:0] returned the whole list and l[::-1] returned an empty one.
---
 pcollections/_list.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..24744e3 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,19 +166,9 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                thamt[ii] = phamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                thamt[ii] = phamt[jj + st]
             return self._new(thamt.persistent(), 0)
         elif k >= n or k < -n:
             raise IndexError("plist index out of range")
@@ -273,19 +263,9 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             new_thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                new_thamt[ii] = thamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                new_thamt[ii] = thamt[jj + st]
             return self._new(new_thamt, 0)
         elif k >= n or k < -n:
             raise IndexError("tlist index out of range")
-- 
2.43.0


From 0f5285fae6d51aa7d7cf873d46035331cbb2b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:15 +0000
Subject: [PATCH 04/36] fix: deleting the first or last element of an llist
 returned a plist

The lazy elements of the result were then handed out unevaluated.
---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 24744e3..e587f36 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From 116e43b0408043f961a9e3781542289382cf00f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 05/36] fix: tldict.as_tdict shared its storage with the tldict

Editing either of the two then corrupted the other.
---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..60a5879 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -484,7 +484,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From cac3660de0215b108b473880ed69700d5645fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:03 +0000
Subject: [PATCH 06/36] fix: tldict(pdict).persistent() returned the pdict
 instead of an ldict

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c37baab..210ea41 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -405,9 +405,10 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From c88a32d272844c4e8442e60f54cb0a8e27e2a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 07/36] fix: constructors and lazy arguments

plist(llist) returned the llist itself and plist(tllist), tlist(llist) and
pdict(tldict) held raw lazy objects, while the documentation says that these
conversions hold the evaluated values; conversely tllist(tllist),
ldict(ldict, key=value), tldict(ldict) and tldict(tldict) evaluated every lazy
value although they build lazy collections.
---
 pcollections/_dict.py |  2 +-
 pcollections/_lazy.py | 25 +++++++++++++++++++++++++
 pcollections/_list.py |  8 ++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 210ea41..4013f79 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -126,7 +126,7 @@ class pdict(PersistentMapping):
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif type(arg) is tdict:
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 60a5879..d8901ed 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -196,6 +196,11 @@ class llist(plist):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy elements are kept as they are when the argument is also lazy.
+        if len(args) == 1 and isinstance(args[0], tllist):
+            args = (args[0].persistent(),)
+        return plist.__new__(cls, *args, **kw)
     def __iter__(self):
         it = plist.__iter__(self)
         return map(lambda u: u() if isinstance(u, lazy) else u, it)
@@ -271,6 +276,13 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy elements are kept as they are when the argument is also lazy.
+        if len(args) == 1 and isinstance(args[0], tllist):
+            args = (args[0].persistent(),)
+        if len(args) == 1 and isinstance(args[0], llist):
+            args = (args[0].as_plist(),)
+        return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
@@ -327,6 +339,14 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy values are kept as they are when the argument is also lazy.
+        if len(args) == 1:
+            if isinstance(args[0], tldict):
+                args = (args[0].as_tdict(),)
+            elif isinstance(args[0], ldict) and kw:
+                args = (args[0].as_pdict(),)
+        return pdict.__new__(cls, *args, **kw)
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
         if isinstance(v, lazy):
@@ -432,6 +452,11 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy values are kept as they are when the argument is also lazy.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            args = (holdlazy(args[0]),)
+        return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
diff --git a/pcollections/_list.py b/pcollections/_list.py
index e587f36..4868b6c 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -34,14 +34,14 @@ class plist(PersistentSequence):
             raise TypeError(msg)
         arg = args[0]
         # If arg is a tlist, this is a special case.
-        if isinstance(arg, tlist):
+        if type(arg) is tlist:
             if len(arg) == 0:
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls:
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
@@ -218,7 +218,7 @@ class tlist(TransientSequence):
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
         # If this is a plist, we know what to do with it.
-        if isinstance(arg, plist):
+        if type(arg) is plist:
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
-- 
2.43.0


From 67600a8fdb9f03b654189b8d683c0b8ea587d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 08/36] fix: llist.ready_all never evaluated anything

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d8901ed..136f3bb 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -235,7 +235,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 473589414d9056bfe210b3b5700925ce0762727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 09/36] fix: ldict.pop returned the lazy object instead of its
 value

---
 pcollections/_lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 136f3bb..5e6eec3 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -415,6 +415,9 @@ class ldict(pdict):
         and returning the reified value.
         """
         return pdict.get(self, key, default)
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def clear(self):
         return ldict.empty
     def transient(self):
-- 
2.43.0


From 46511745065c0dd54838c8a8d37b333035849e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 10/36] fix: tldict.pop called itself without end

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 5e6eec3..282ded2 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -531,7 +531,7 @@ class tldict(tdict):
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
     def pop(self, *args):
-        return unlazy(self.pop(*args))
+        return unlazy(tdict.pop(self, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From cb0abe0eced40a31f2874cb7ca1e8d3c6681750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 11/36] fix: count of llist and tlist

llist.count compared the lazy objects instead of their values, and tlist.count
died on an attribute that transient lists do not have.
---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..16d7bfa 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -171,7 +171,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
@@ -407,7 +407,7 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 760bbbb76a5061c9d86f01b61959c4dafbbc444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:39 +0000
Subject: [PATCH 12/36] fix: hash of an ldict used the lazy objects instead of
 their values

Equal dicts had different hashes, and the documentation says that hashing an
ldict evaluates its lazy values.
---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..78dd81f 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From a7acf58e9566826dd73751d1a056fa614fee6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 13/36] fix: membership in the values view of a tdict or tldict

Both looked for the storage in the view instead of in its mapping.
---
 pcollections/_dict.py | 4 ++--
 pcollections/_lazy.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 4013f79..bf70cb0 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -353,8 +353,8 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
-            if kv[1] == v:
+        for v0 in self:
+            if v0 == v:
                 return True
         return False
 class tdict(TransientMapping):
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 282ded2..1dc2024 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -438,11 +438,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From 835a0da6d38c3c3b10d5634b462424a49d6c1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 14/36] fix: pdict.dropall called a method that transients do
 not have

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 78dd81f..c0b71d2 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,7 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            t.pop(k, None)
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 05bc0711507f249c93b1a92c5232d618a7cdb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 15/36] fix: pset.symmetric_difference with a result of the
 same size

It returned the original set, e.g. for {1,2} and {2,3}.
---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..e5d5a96 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -209,8 +209,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 96802c27c8b065e53842d741a4d906239ad42795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 16/36] fix: isdisjoint with an empty set, or of a tset with
 any iterable

setcmp(a, b) is None only when both sets are non-empty, so two sets of
which one is empty were reported as not disjoint. tset.isdisjoint also
raised TypeError for arguments that are not sets.
---
 pcollections/abc/_set.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index e5d5a96..960acdb 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -165,9 +165,7 @@ class PersistentSet(Set, Persistent):
         return type(self)(t)
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        if not isinstance(other, Set):
-            other = set(other)
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, iter(other)))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
@@ -374,7 +372,7 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        return setcmp(self, other) is None
+        return not any(map(self.__contains__, iter(other)))
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
-- 
2.43.0


From e75e73c30dbb79c7c6b8452cbfe6fd661d790311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 17/36] fix: comparing a tset for equality with something that
 is not a set

tset() == None raised TypeError instead of returning False.
---
 pcollections/abc/_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 960acdb..5a5bdb4 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -355,9 +355,15 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        if isinstance(other, Set):
+            return setcmp(self, other) != 0
+        else:
+            return True
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From 3c631bd2163b5da824e3ef704528b4264596c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 18/36] fix: equality and ordering of sequences whose elements
 are not totally ordered

plist([None]) == plist([None]) raised TypeError, and
plist([{1}]) == plist([{2}]) was True: elements were compared with < only.
Equality now compares elements with ==, and ordering compares the first
elements that differ, as for list.
---
 pcollections/abc/_seq.py   | 6 ++++--
 pcollections/util/_core.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 16d7bfa..e637c3a 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,8 +136,10 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
@@ -375,7 +377,7 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..a773ff3 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -55,13 +55,15 @@ def seqcmp(seq1, seq2):
     `b`, and 1 if `a` sorts after `b`.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
-- 
2.43.0


From d657f49337fd85f8352952fbf486ebcb73844f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 19/36] fix: sort, reverse, and list + of tlist

sort and list + tlist used undefined names; reverse started one past the
end and so raised IndexError for every list of two or more elements.
---
 pcollections/abc/_seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index e637c3a..cfd45d9 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -335,7 +335,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
@@ -359,7 +359,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - 1 - k
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
@@ -465,7 +465,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 28d427b01dcbf899dcd0a222a3c9b3568c90f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 20/36] fix: index and remove of tlist

index without a stop compared an int to None, so it and remove raised
TypeError.
---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index cfd45d9..54660bb 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -421,6 +421,8 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        if stop is None:
+            stop = len(self)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From acea5b149f88825f15f884d09ea034820eb64e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 21/36] fix: multiplying a tlist by an integer

The list was iterated while it was being appended to, which raises
RuntimeError.
---
 pcollections/abc/_seq.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 54660bb..f409903 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -478,13 +478,9 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = self.persistent()
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                self.extend(els)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From f8094289ee69b5a20ac92a4c4b54bc15e77d8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 22/36] fix: symmetric_difference_update of tset used an
 undefined name

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 5a5bdb4..f8f92db 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -416,7 +416,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From d57663b4133f1363a8d6c10074134a9a22d7351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 23/36] fix: in-place operations of a transient with itself as
 the operand

s -= s, s ^= s, s.discardall(s), s.removeall(s) and l.extend(l) edited the
collection they were iterating over, which raises RuntimeError.
---
 pcollections/abc/_seq.py | 2 +-
 pcollections/abc/_set.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index f409903..e6b4d51 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -414,7 +414,7 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.append(el)
     def index(self, value, start=0, stop=None):
         """Returns first index of value.
diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index f8f92db..df85788 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -504,7 +504,7 @@ class TransientSet(MutableSet, Transient):
         for el in self:
             if el in other:
                 rm.append(el)
-        for el in other:
+        for el in (list(self) if other is self else other):
             if el in self:
                 self.remove(el)
             else:
@@ -543,7 +543,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.discard(el)
     def removeall(self, iterable):
         """Returns a copy of the persistent set with the given elements
@@ -551,7 +551,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.remove(el)
     def copy(self):
         """Returns a copy of the transient set."""
-- 
2.43.0


From 97b671a11d85532e014f856a1efdad1a5b2bd34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 24/36] fix: deleting attributes of persistent collections

del p._els succeeded and destroyed the collection, and del p[k] failed
for having the wrong number of arguments.
---
 pcollections/abc/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..329b2a8 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,9 +14,11 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
-    def __delitem__(self, k, v):
+    def __delitem__(self, k):
         raise TypeError(f"{type(self)} is immutable")
     # Implementation methods that are probably fine in all children.
     def copy(self):
-- 
2.43.0


From 9219fd19f49600dc66b5b3b930463740c2121926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 25/36] fix: tdict.clear did not invalidate iterators

It reset the version that iterators compare with, so an iterator made
before the clear kept yielding the removed keys.
---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index bf70cb0..95cd3f9 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -527,7 +527,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 398c12ccfa9e86f5936c03823b802a3f940cf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 26/36] fix: hash of sets that equal a frozenset

pset({1}) == frozenset({1}), so their hashes must be equal too; with
different ones a dict or set keeps both as separate keys.
---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index df85788..f5f4245 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -95,7 +95,7 @@ class PersistentSet(Set, Persistent):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
@@ -365,7 +365,7 @@ class TransientSet(MutableSet, Transient):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
-- 
2.43.0


From d4f6f0da283062b1349571b95f182d9875a52011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 27/36] fix: str of a LazyError made with a partial used an
 undefined name

---
 pcollections/_lazy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 1dc2024..3f667fd 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -37,6 +37,7 @@ class LazyError(RuntimeError):
         self.partial = partial
     def __str__(self):
         if isinstance(self.partial, partial):
+            p = self.partial
             (fn, args, kwargs) = (p.func, p.args, p.keywords)
         else:
             (fn, args, kwargs) = self.partial
-- 
2.43.0


From 7750a06511761d1169eba45272b18b0582e6e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:35 +0000
Subject: [PATCH 28/36] fix: adding to an empty llist returned an operand of
 another type

llist() + plist([1]) was the plist itself.
---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index e6b4d51..697dc36 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -213,7 +213,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From eb3b2dea6224c7bee1ffe939dd11d514d0e4b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 29/36] fix: str and repr of a tllist evaluated its lazy
 elements

llist, ldict, and tldict all print lazy elements without evaluating them.
---
 pcollections/_lazy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 3f667fd..4a32867 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -286,6 +286,12 @@ class tllist(tlist):
         return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        it = tlist.__iter__(self)
+        return f"[<{seqstr(it, maxlen=60, tostr=reprlazy)}>]"
+    def __repr__(self):
+        return f"[<{seqstr(tlist.__iter__(self))}>]"
     def persistent(self):
         """Efficiently copies the tllist into an llist and returns the llist."""
         if len(self._thamt) == 0:
-- 
2.43.0


From d46e3c5bfc1cfb8934057e509c89a0c6bf9fe5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 30/36] fix: update of a tldict with itself

Reading the items computes lazy values, which then replaced the lazy objects in
the trie being iterated over: RuntimeError.
---
 pcollections/abc/_map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c0b71d2..13b1cca 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -304,6 +304,8 @@ class TransientMapping(MutableMapping, Transient):
         mapping or an iterable of items.
         """
         for arg in args:
+            if arg is self:
+                continue
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
                 self[k] = v
         for (k,v) in kw.items():
-- 
2.43.0


From f0d21eac704f692341ec4128ddf251b135f02229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:41 +0000
Subject: [PATCH 31/36] fix: ldict.dropall computes the lazy values it drops

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 13b1cca..3494016 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.pop(k, None)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 6e59cf73ffff5e129a6e48a8c0c1a671e5e591d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 32/36] fix: seqstr counts the separator after an element with
 an empty text

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index a773ff3..db5e656 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -101,7 +101,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From 7b843dd2bd08ec0b0573d76d3f978635884cbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 33/36] fix: a key that is not bound is not in the items view,
 whatever the value compares equal to

---
 pcollections/_dict.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 95cd3f9..9a8ce83 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -72,9 +72,9 @@ class pdict_items(ItemsView, PDictView):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
-        v = self._mapping.get(k0, d)
-        (k,v) = self._from_kv((k0,v))
+        if k0 not in self._mapping:
+            return False
+        (k,v) = self._from_kv((k0,self._mapping[k0]))
         return v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
@@ -346,8 +346,9 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        if kv[0] not in self._tdict:
+            return False
+        return self._tdict[kv[0]] == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
-- 
2.43.0


From 33b8f225d685dd97fdfc504af22bd1d9eeb01d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 34/36] fix: any name can be given as a keyword key to a
 dictionary constructor

---
 pcollections/_dict.py | 8 ++++++--
 pcollections/_lazy.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 9a8ce83..2a2bd56 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -107,7 +107,9 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # No parameter is named here: every name is a valid keyword (key).
+        (cls, args) = (args[0], args[1:])
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -389,7 +391,9 @@ class tdict(TransientMapping):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # No parameter is named here: every name is a valid keyword (key).
+        (cls, args) = (args[0], args[1:])
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 4a32867..60b8cc3 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -346,7 +346,9 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # No parameter is named here: every name is a valid keyword (key).
+        (cls, args) = (args[0], args[1:])
         # Lazy values are kept as they are when the argument is also lazy.
         if len(args) == 1:
             if isinstance(args[0], tldict):
@@ -462,7 +464,9 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # No parameter is named here: every name is a valid keyword (key).
+        (cls, args) = (args[0], args[1:])
         # Lazy values are kept as they are when the argument is also lazy.
         if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             args = (holdlazy(args[0]),)
-- 
2.43.0


From 67bac5e662193470d1c0f1feba2d6cebb4d189ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 35/36] fix: any name can be given as a keyword key to update

---
 pcollections/abc/_map.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 3494016..7ee18e1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -170,13 +170,15 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
         Multiple arguments may be provided, but they must each be a mapping or
         an iterable of items.
         """
+        # No parameter is named here: every name is a valid keyword (key).
+        (self, args) = (args[0], args[1:])
         t = self.transient()
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
@@ -297,13 +299,15 @@ class TransientMapping(MutableMapping, Transient):
                 raise
             else:
                 return args[0]
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
         Multiple arguments may be provided, but they must each be either a
         mapping or an iterable of items.
         """
+        # No parameter is named here: every name is a valid keyword (key).
+        (self, args) = (args[0], args[1:])
         for arg in args:
             if arg is self:
                 continue
-- 
2.43.0


From fe707179c362d104ac26dbf4a75d90397c5cf269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:35 +0000
Subject: [PATCH 36/36] fix: a lazy can give its function a keyword argument of
 any name

---
 pcollections/_lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 60b8cc3..0211ead 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -64,7 +64,11 @@ class lazy:
     forgotten.
     """
     __slots__ = ('partial', 'value')
-    def __new__(cls, fn, *args, **kw):
+    def __new__(*args, **kw):
+        # No parameter is named here: fn may take keywords of any name.
+        if len(args) < 2:
+            raise TypeError("lazy() requires a function to call")
+        (cls, fn, args) = (args[0], args[1], args[2:])
         # Make sure the function is callable.
         if not callable(fn):
             raise TypeError(f"lazy({fn}) must be given a callable function")
-- 
2.43.0

