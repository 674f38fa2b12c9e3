From 432866bdaae91d95f5de3e18d2e9b9af80445cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 01/53] fix: offsets and parents of a JaggedArray whose stops
 are longer than its starts

---
 awkward0/array/jagged.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..d9c914b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
-- 
2.43.0


From e062e239796722e62aa67b675141d0654ff8a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 02/53] fix: validity check of a JaggedArray whose stops are
 longer than its starts

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d9c914b..3974bc3 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -479,15 +479,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.reshape(-1).max(), len(self._content)))
 
             self._isvalid = True
 
-- 
2.43.0


From 5acaa0ccf922bff5d0079fd95cbab46b5cf7661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 03/53] fix: JaggedArray.fromparents of an empty parents array

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3974bc3..4aa6f94 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -74,6 +74,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def parents2startsstops(cls, parents, length=None):
         # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
+        if len(parents) == 0:
+            return cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE), cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         changes[0] = 0
-- 
2.43.0


From b76b6e9d326a88183458d78f83d802c0dc96b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 04/53] fix: JaggedArray.fromuniques of an empty array has no
 lists

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 4aa6f94..da78d27 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -99,6 +99,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def uniques2offsetsparents(cls, uniques):
         # assumes that children are contiguous, in order, and fully covering (can't have empty lists)
         # values are ignored, apart from uniqueness
+        if len(uniques) == 0:
+            return cls.numpy.zeros(1, dtype=cls.JaggedArray.fget(None).INDEXTYPE), cls.numpy.zeros(0, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+
         changes = cls.numpy.nonzero(uniques[1:] != uniques[:-1])[0] + 1
 
         offsets = cls.numpy.empty(len(changes) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
-- 
2.43.0


From b0bff8fbcbb2da546db1d3508206dcb01a44b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 05/53] fix: JaggedArray.fromregular of shapes with a zero
 dimension

---
 awkward0/array/jagged.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index da78d27..7044cec 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -234,8 +234,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(shape) <= 1:
             raise ValueError("regular array must have more than one dimension")
         out = regular.reshape(-1)
-        for x in shape[:0:-1]:
-            out = cls.fromfolding(out, x)
+        for i in range(len(shape) - 1, 0, -1):
+            length = functools.reduce(operator.mul, shape[:i], 1)
+            out = cls.fromoffsets(cls.numpy.arange(length + 1, dtype=cls.INDEXTYPE) * shape[i], out)
         return out
 
     @classmethod
-- 
2.43.0


From 6caf5ac835b47dd2a245573e39a0878b9992afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 06/53] fix: index the outer dimension of a JaggedArray whose
 stops are longer than its starts

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7044cec..6090d89 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -605,7 +605,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
-- 
2.43.0


From e4483911f1d0399983ef0cb87e007c64dff6f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 07/53] fix: negative positions when selecting one element per
 list of a JaggedArray

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6090d89..8c825c6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -748,7 +748,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = head.copy() if head is original_head else head
                         mask = (index < 0)
                         if mask.any():
-                            index[mask] += head.counts
+                            index[mask] += node.counts[mask]
                         if (index < 0).any() or (index >= node.counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
-- 
2.43.0


From 1c39c017284f7f4ec11d25aba56069fedc3db25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:09 +0000
Subject: [PATCH 08/53] fix: boolean mask in the second dimension of a
 JaggedArray

---
 awkward0/array/jagged.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 8c825c6..70d5458 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -765,13 +765,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
                         head = self.numpy.nonzero(head)[0]
                         index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(-1, len(node)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        numrows = len(node)
+                        index = (index.reshape(numrows, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(numrows, len(head))
+                            node._stops = node._stops.reshape(numrows, len(head))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(numrows, len(head))
                         else:
                             raise NotImplementedError
 
-- 
2.43.0


From 75b5900d6f5e0233f74435fb97034ac3f20a579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 09/53] fix: empty integer array in the second dimension of a
 JaggedArray

---
 awkward0/array/jagged.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 70d5458..091383e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -722,20 +722,21 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             stack.insert(0, node.counts)
                             node = node.flatten()
 
+                        numrows = len(node)
                         index = self.numpy.tile(head, len(node))
                         mask = (index < 0)
                         if mask.any():
-                            pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
+                            pluscounts = (index.reshape(numrows, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
                             index[mask] = pluscounts[mask]
-                        if (index < 0).any() or (index.reshape(-1, len(head)) >= node.counts.reshape(-1, 1)).any():
+                        if (index < 0).any() or (index.reshape(numrows, len(head)) >= node.counts.reshape(-1, 1)).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
-                        index = (index.reshape(-1, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(numrows, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node._starts = node._starts.reshape(numrows, len(head))
+                            node._stops = node._stops.reshape(numrows, len(head))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(numrows, len(head))
                         else:
                             raise NotImplementedError
 
-- 
2.43.0


From 361f565c690f20f11d427e2c5573205bad7f1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 10/53] fix: operations on a JaggedArray whose stops are longer
 than its starts

---
 awkward0/array/jagged.py | 48 ++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 091383e..3cb804d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -298,13 +298,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
                 ["awkward0", "JaggedArray"],
                 serializer(self._starts, "JaggedArray.starts"),
-                serializer(self._stops, "JaggedArray.stops"),
+                serializer(self.stops, "JaggedArray.stops"),
                 serializer(self._content, "JaggedArray.content"),
             )
 
@@ -575,9 +575,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._starts.shape = self._starts.shape
 
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
+                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
                 intheadsum = inthead.sum()
 
@@ -858,7 +858,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             tmp = self.compact()
             tmpparents = self.offsets2parents(tmp.offsets)
 
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
+            index = self.JaggedArray(tmp._starts, tmp.stops, (self.numpy.arange(tmp.stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
 
             data = data.compact()
             return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
@@ -998,7 +998,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-                starts, stops, parents, good = jaggedarray._starts, jaggedarray._stops, None, None
+                starts, stops, parents, good = jaggedarray._starts, jaggedarray.stops, None, None
                 break
         else:
             assert False
@@ -1068,7 +1068,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1428,13 +1428,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
@@ -1455,9 +1455,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
             offsets = self.numpy.arange(0, (length + 1)*last, last)
             outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            outerstops = offsets[1:].reshape(out.stops.shape[:-2] + (-1,))
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
@@ -1512,7 +1512,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
+            thyself._stops = thyself.stops.reshape(-1)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
@@ -1642,7 +1642,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x.stops for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1755,14 +1755,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
                 starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
+                stops = stops.reshape((-1,) + x.stops.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
         if isinstance(columns1, JaggedArray):
@@ -1775,7 +1775,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1784,7 +1784,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1792,7 +1792,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1812,13 +1812,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1829,7 +1829,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1840,7 +1840,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1849,13 +1849,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 table = cls.Table.fget(None)(columns1, *columns2, **columns3)
             else:
                 table = cls.Table.fget(None).named("tuple", columns1, *columns2)
-            return cls.JaggedArray.fget(None)(first._starts, first._stops, table)
+            return cls.JaggedArray.fget(None)(first._starts, first.stops, table)
         else:
             if isinstance(columns1, dict) or len(columns3) > 0:
                 table = first.Table(columns1, *columns2, **columns3)
             else:
                 table = first.Table.named("tuple", columns1, *columns2)
-            return first.JaggedArray(first._starts, first._stops, table)
+            return first.JaggedArray(first._starts, first.stops, table)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From 324d2a5a66c2b036e5da8f2babae76ccac139d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 11/53] fix: JaggedArrays of empty lists at positions beyond
 their content, as mask and as operand

---
 awkward0/array/jagged.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3cb804d..aa581a6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -480,7 +480,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if self.check_whole_valid:
                     if not (self._offsets[1:] >= self._offsets[:-1]).all():
                         raise ValueError("offsets must be monatonically increasing")
-                    if self._offsets.max() > len(self._content):
+                    if self._offsets.min() != self._offsets.max() and self._offsets.max() > len(self._content):
                         raise ValueError("maximum offset {0} is beyond the length of the content ({1})".format(self._offsets.max(), len(self._content)))
 
             else:
@@ -946,7 +946,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             index = self._starts[parents]
             index += increase
             index *= good
-            out = self.copy(starts=starts, stops=stops, content=self._content[index])
+            content = self._content[index] if len(self._content) > 0 else self._content
+            out = self.copy(starts=starts, stops=stops, content=content)
             out._parents = parents
             return out
 
-- 
2.43.0


From 1e83938c41844a676799fae825df331fad00aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 12/53] fix: ChunkedArray.deepcopy

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..8106624 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -31,7 +31,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From e9d6c06b495c400615e475da2d56a35159892d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 13/53] fix: JaggedArray.flatten(axis=1) of content that the
 lists do not cover from its start

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index aa581a6..69fc085 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1418,12 +1418,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._util_flatten(self._content, axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if len(self) == 0:
-- 
2.43.0


From a4739a610b65287ac8900e9645d13323c9dd4b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 14/53] fix: JaggedArray.tojagged of a jagged operand whose
 first offset is not zero

---
 awkward0/array/jagged.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 69fc085..0dc365a 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -860,8 +860,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             index = self.JaggedArray(tmp._starts, tmp.stops, (self.numpy.arange(tmp.stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
 
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            return self.copy(content=data.flatten()[self.IndexedArray.invert((index + self._starts)._content)])
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
-- 
2.43.0


From d9e878d4cd03155e2c355151f31f2921fcb2b472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 15/53] fix: JaggedArray.regular of an empty array

---
 awkward0/array/jagged.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0dc365a..0a106aa 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1064,8 +1064,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
             raise ValueError("jagged array is not regular: different elements have different counts")
-        count = self.counts.reshape(-1)[0]
         content = self._util_regular(self._content)
+        if len(self) == 0:
+            return content[0:0].reshape(self._starts.shape + (0,) + content.shape[1:])
+        count = self.counts.reshape(-1)[0]
 
         if self._canuseoffset():
             out = content[self._starts[0]:self.stops[-1]]
-- 
2.43.0


From 5fdb972ac4c8d3530bd38b9d473fadc2692ef160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 16/53] fix: NumPy scalar on the left of an operation with a
 JaggedArray

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0a106aa..436da1b 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1006,7 +1006,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
                 data = self._util_toarray(inputs[i], inputs[i].dtype)
-                if starts.shape != data.shape:
+                if len(data.shape) != 0 and starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
 
                 if parents is None:
-- 
2.43.0


From 7bc050076e24eae85ea8ef8f9f01159f2d877c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 17/53] fix: weighted var and std

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..b0fa4fe 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -235,7 +235,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
                 two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
             if ddof != 0:
-- 
2.43.0


From a0b2efef8493b6bae0b0bd452a6737a1e913d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 18/53] fix: jagged reduction of a Table view reduces the
 view's rows

---
 awkward0/array/jagged.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 436da1b..f0fa3f6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1475,9 +1475,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
+            out = self._content.empty_like()
+            for n in self._content._contents:
+                out[n] = self.copy(content=self._content[n])._reduce(ufunc, identity, dtype)
             return out
 
         elif isinstance(self._content, awkward0.array.base.AwkwardArray):
@@ -1507,9 +1507,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             thyself = self.copy()
 
         if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
+            out = thyself._content.empty_like()
+            for n in thyself._content._contents:
+                out[n] = thyself.copy(content=thyself._content[n])._reduce(ufunc, identity, dtype)
             return out
 
         if len(thyself._starts.shape) > 1:
-- 
2.43.0


From 0ed73f0d92d13ea5ee98f13c6e1064b1d27de7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 19/53] fix: nested cross of JaggedArrays whose lists overlap

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f0fa3f6..f9ce5c1 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1343,7 +1343,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out["1"] = out["1"] - other._starts
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(other.counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.numpy.repeat(other.counts, awkward0.util.windows_safe(self.counts)), out._content))
 
         return out
 
@@ -1364,7 +1364,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if nested:
             old = out
-            out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(thyself.tojagged(other.counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(self.numpy.repeat(other.counts, awkward0.util.windows_safe(thyself.counts)), out._content))
             out._nestedcross = old
 
         if hasattr(self, "_nestedcross"):
@@ -1372,7 +1372,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             mask = (self.counts != 0)
             counts[mask] //= self.counts[mask]
             old = out
-            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.numpy.repeat(counts, awkward0.util.windows_safe(self.counts)), out._content))
             out._nestedcross = old
 
         return out
-- 
2.43.0


From d81a154e6dc13808294b0d2e73e8a85a8cb8afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 20/53] fix: concatenation of IndexedMaskedArrays and of
 MaskedArrays whose content is longer than the mask

---
 awkward0/array/masked.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..f06ccda 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -409,7 +409,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
         mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+        content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x._mask)] for x in arrays])
         return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
@@ -923,15 +923,13 @@ class IndexedMaskedArray(MaskedArray):
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, IndexedMaskedArray) for x in arrays)
 
-        indexes = []
+        masks = []
         offset = 0
         for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
-            indexes.append(tmp)
+            masks.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))
             offset += len(x._content)
-        index = cls.numpy.concatenate(indexes)
+        mask = cls.numpy.concatenate(masks)
 
         content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
 
-        return cls(index, content, maskedwhen=maskedwhen)
+        return cls(mask, content, maskedwhen=-1)
-- 
2.43.0


From 8bef26fdffe08ff5a3dcfdbe77d487e330191bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 21/53] fix: concatenate arrays of different types

---
 awkward0/array/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index b0fa4fe..5cd0b78 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -562,7 +562,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
             return cls.numpy.concatenate(arrays)
         else:
-            return arrays[0].concatenate(arrays[1:])
+            return AwkwardArray.concatenate(arrays)
 
     @bothmethod
     def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
@@ -577,9 +577,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             arrays = (self,) + tuple(arrays)
 
         def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
+            # the class that implements concatenation for type t
+            for b in t.__mro__:
+                if "_concatenate_axis0" in b.__dict__:
+                    return b
             else:
                 return t
 
-- 
2.43.0


From 5414ba86267c705d090b87043fef022dac63ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 22/53] fix: JaggedArray.zip with scalar columns, without
 lists, and of a dict (which it changed)

---
 awkward0/array/jagged.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index f9ce5c1..c459539 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1771,6 +1771,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
+            columns1 = OrderedDict(columns1)
             for n in columns1:
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
@@ -1814,13 +1815,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max() if len(first.stops) != 0 else 0, x, dtype=type(x)))._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max() if len(first.stops) != 0 else 0, columns1, dtype=type(columns1)))._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1831,7 +1832,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
+                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max() if len(first.stops) != 0 else 0, x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1842,7 +1843,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
+                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max() if len(first.stops) != 0 else 0, x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
-- 
2.43.0


From db8275170e4f8b15bed8dcc389c89a86b1b39f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 23/53] fix: JaggedArray.pad to length zero, along axis 1 and
 with numpy.ma masks

---
 awkward0/array/base.py   | 19 ++++++++++---------
 awkward0/array/jagged.py |  6 +++---
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 5cd0b78..a7f74e9 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -495,38 +495,39 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         elif length == 0 and clip:
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.numpy.ma.array([]))
+                return cls.JaggedArray.fget(None).fromoffsets(cls.numpy.zeros(len(array) + 1, dtype=cls.INDEXTYPE), cls.numpy.ma.array(cls.numpy.empty((0,) + array.shape[2:], dtype=array.dtype)))
             else:
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.MaskedArray.fget(None)([], []))
+                return cls.JaggedArray.fget(None).fromoffsets(cls.numpy.zeros(len(array) + 1, dtype=cls.INDEXTYPE), cls.MaskedArray.fget(None)([], cls.numpy.empty((0,) + array.shape[2:], dtype=array.dtype)))
 
         elif array.shape[1] > length and clip:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = array[(slice(None), slice(length)) + array.shape[2:]]
+            offsets = cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)*length
+            content = array[:, :length]
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:])))
             else:
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
 
         elif array.shape[1] >= length:
-            offsets = cls.numpy.arange(0, array.shape[1]*(len(array) + 1), array.shape[1], dtype=cls.INDEXTYPE)
+            offsets = cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)*array.shape[1]
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(array.reshape((-1,) + array.shape[2:])))
             else:
                 return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(array.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
 
         else:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
+            offsets = cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)*length
             content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
             content[:, :array.shape[1]] = array
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask))
+                mask = cls.numpy.ones(content.shape, dtype=cls.MASKTYPE)
+                mask[:, :array.shape[1]] = False
+                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask.reshape((-1,) + array.shape[2:])))
             if maskedwhen:
                 mask = cls.numpy.ones((len(array), length), dtype=cls.MASKTYPE)
             else:
                 mask = cls.numpy.zeros((len(array), length), dtype=cls.MASKTYPE)
             mask[:, :array.shape[1]] = not maskedwhen
-            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask.reshape((-1,) + array.shape[2:]), content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
+            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask.reshape(-1), content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
 
     @classmethod
     def _util_regular(cls, array):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c459539..427485c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1865,12 +1865,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return self.copy(content=self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
         if len(self._content) == 0:
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length)
+            offsets = self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)*length
             starts, stops = offsets[:-1], offsets[1:]
             content = self.IndexedMaskedArray(self.numpy.full(length*len(flatstarts), -1, dtype=self.INDEXTYPE), self._content, maskedwhen=-1)
             return self.copy(starts=starts.reshape(self._starts.shape), stops=stops.reshape(self._starts.shape), content=content)
@@ -1881,7 +1881,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             localindex = index - almostflat
             index = index.reshape(-1)
             comparator = self.counts.reshape(-1, 1)
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length, dtype=self.INDEXTYPE)
+            offsets = self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)*length
 
         else:
             counts = self.numpy.maximum(self.counts.reshape(-1), length)
-- 
2.43.0


From f0683c7c77e688ee35dc341438a1cabbd1babb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 24/53] fix: fillna modified its array in place and did not
 fill both NaN and masked

---
 awkward0/array/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index a7f74e9..70e928b 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -648,9 +648,12 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, cls.numpy.ndarray):
             data = cls.numpy.ma.getdata(array)
             mask = cls.numpy.ma.getmask(array)
+            na = cls.numpy.isnan(data)
             if mask is not cls.numpy.ma.nomask:
-                data[mask] = value
-            data[cls.numpy.isnan(data)] = value
+                na |= mask
+            if na.any():
+                data = data.copy()
+                data[na] = value
             return data
         else:
             return array.fillna(value)
-- 
2.43.0


From b392b6872ce6cca278921e29b2a7912003db01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 25/53] fix: count, count_nonzero and integer min/max of whole
 (also empty) arrays

---
 awkward0/array/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 70e928b..875db1a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -541,9 +541,20 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
 
+        elif ufunc is None:
+            if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
+                return cls.numpy.count_nonzero(~cls.numpy.isnan(array))
+            else:
+                return array.size
+
+        elif ufunc is cls.numpy.count_nonzero:
+            return cls.numpy.count_nonzero(array)
+
         elif len(array) == 0:
             if dtype is None:
                 dtype = array.dtype
+            if cls._util_isintegertype(dtype.type) and identity in (cls.numpy.inf, -cls.numpy.inf):
+                identity = cls.numpy.iinfo(dtype.type).max if identity > 0 else cls.numpy.iinfo(dtype.type).min
             return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=dtype), axis=-1)
 
         else:
-- 
2.43.0


From 81cc34b51ed4e1d9038d2463d9a839ccffd9c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 26/53] fix: BitMaskedArray negative and out-of-range indexes,
 mask length check, and fromcontent

---
 awkward0/array/masked.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f06ccda..76b9ab6 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -441,7 +441,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
@@ -552,6 +552,9 @@ class BitMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
+                if len(self._mask) < self._ceildiv8(len(self._content)):
+                    raise ValueError("mask length ({0} bytes) must be at least one bit for each of the {1} content elements".format(len(self._mask), len(self._content)))
+
                 self._isvalid = True
 
     def __iter__(self, checkiter=True):
@@ -613,6 +616,11 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
+            original_where, length = where, len(self._content)
+            if where < 0:
+                where += length
+            if not 0 <= where < length:
+                raise IndexError("index {0} out of bounds for length {1}".format(original_where, length))
             bytepos, bitmask = self._maskat(where)
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
@@ -623,6 +631,10 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
+                length = len(self._content)
+                where = self.numpy.where(where < 0, where + length, where)
+                if not self.numpy.bitwise_and(0 <= where, where < length).all():
+                    raise IndexError("some indexes out of bounds for length {0}".format(length))
                 byteposes, bitmasks = self._maskat(where)
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
-- 
2.43.0


From fa3af3897bc627613e0414224bea8139df91ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 27/53] fix: ufuncs of MaskedArrays whose content is longer
 than the mask, and with 0-d arrays

---
 awkward0/array/masked.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 76b9ab6..5a0ca3a 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,7 +226,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(tokeep)][tokeep]
+            elif isinstance(inputs[i], self.numpy.ndarray) and inputs[i].shape == ():
+                pass
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 inputs[i] = inputs[i][tokeep]
             else:
-- 
2.43.0


From 2b1d5347d40e8767f1b08e5fd6a3b294a4c27c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 28/53] fix: argmin and argmax of masked arrays

---
 awkward0/array/masked.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 5a0ca3a..9886ac3 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -390,19 +390,19 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            mask = self.isunmasked
+            return self.numpy.nonzero(mask)[0][self._content[:len(mask)][mask].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            mask = self.isunmasked
+            return self.numpy.nonzero(mask)[0][self._content[:len(mask)][mask].argmax()]
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
-        if not isinstance(out, self.numpy.ndarray):
+        out = self._util_fillna(self._content[:len(self)], value)
+        if not isinstance(out, self.numpy.ndarray) or out is self._content or not out.flags.owndata:
             out = self.numpy.array(out)
         out[self.boolmask(maskedwhen=True)] = value
         return out
@@ -911,15 +911,15 @@ class IndexedMaskedArray(MaskedArray):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            mask = self.isunmasked
+            return self.numpy.nonzero(mask)[0][self._content[self._mask[mask]].argmin()]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            mask = self.isunmasked
+            return self.numpy.nonzero(mask)[0][self._content[self._mask[mask]].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
-- 
2.43.0


From 35072b07dfb02a17843d9223d7e45a330a6e3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 29/53] fix: IndexedMaskedArray accepted an index equal to the
 length of its content

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9886ac3..1e6384c 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -784,7 +784,7 @@ class IndexedMaskedArray(MaskedArray):
         if self.check_whole_valid:
             if not self._isvalid:
                 if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
+                    if self._mask.max() >= len(self._content):
                         raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
                     if (self._mask[self._mask != self._maskedwhen] < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
-- 
2.43.0


From ffb1845d2b50c2eb2c471d6ba6238d2dd2b44289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 30/53] fix: counts, flatten and regular of masked arrays

---
 awkward0/array/masked.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 1e6384c..5f6e580 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -291,8 +291,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._util_flattentuple(self._content))
 
     def flatten(self, axis=0):
+        if axis != 0:
+            return self.copy(content=self._util_flatten(self._content, axis))
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._content[:len(mask)][mask]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -309,7 +311,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self._util_regular(self._content[:len(self)]).astype(self.numpy.float64)
         out[self.boolmask(maskedwhen=True)] = float("nan")
         return out
 
@@ -847,11 +849,14 @@ class IndexedMaskedArray(MaskedArray):
     @property
     def counts(self):
         self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
+        out = self.numpy.full(self.shape, -1, dtype=self.INDEXTYPE)
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = self._util_counts(self._content)[self._mask[mask]]
         return out
 
     def flatten(self, axis=0):
+        if axis != 0:
+            return self.copy(content=self._util_flatten(self._content, axis))
         mask = self.boolmask(maskedwhen=False)
         goodcontent = self._content[self._mask[self._mask >= 0]]
         content = self._util_flatten(goodcontent, axis)
@@ -867,8 +872,10 @@ class IndexedMaskedArray(MaskedArray):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        content = self._util_regular(self._content).astype(self.numpy.float64)
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"))
+        mask = self.boolmask(maskedwhen=False)
+        out[mask] = content[self._mask[mask]]
         return out
 
     def indexed(self):
-- 
2.43.0


From 574d269edde10060c2baa5bac5ef065ccbe61080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:41 +0000
Subject: [PATCH 31/53] fix: reduction of masked arrays (all masked, empty,
 IndexedMaskedArray, content longer than mask)

---
 awkward0/array/masked.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 5f6e580..2b11d9d 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -260,7 +260,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_counts(self._content)
         out = self.numpy.full(self.shape, -1, dtype=content.dtype)
         mask = self.boolmask(maskedwhen=False)
-        out[mask] = content[mask]
+        out[mask] = content[:len(mask)][mask]
         return out
 
     def choose(self, n):
@@ -325,9 +325,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
+            out = self._content.empty_like()
+            for n in self._content._contents:
+                out[n] = self.copy(content=self._content[n])
             return out._reduce(ufunc, identity, dtype)
 
         else:
@@ -338,13 +338,15 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 return (1 - (prepared == 0)).sum()
             if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
                 prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
+            if ufunc.identity is None and len(prepared) == 0:
+                return self._util_reduce(prepared, ufunc, identity, dtype)
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
+            out = self._content.empty_like()
+            for n in self._content._contents:
+                out[n] = self.copy(content=self._content[n])._prepare(ufunc, identity, dtype)
             return out
 
         if isinstance(self._content, self.numpy.ndarray):
@@ -364,6 +366,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             content = self._content._prepare(ufunc, identity, dtype)
 
+        content = content[:len(self)]
         if content is self._content or not content.flags.owndata:
             content = content.copy()
 
@@ -883,27 +886,36 @@ class IndexedMaskedArray(MaskedArray):
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
+            out = self._content.empty_like()
+            for n in self._content._contents:
+                out[n] = self.copy(content=self._content[n])._prepare(ufunc, identity, dtype)
             return out
 
         if isinstance(self._content, self.numpy.ndarray):
             if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
+            if ufunc is None:
+                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
+                content[self.numpy.isnan(self._content)] = self.numpy.nan
+            elif ufunc is self.numpy.count_nonzero:
+                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
+                content[self.numpy.isnan(self._content)] = 0
+                content[self._content == 0] = 0
+            elif dtype is None:
                 content = self._content
             else:
                 content = self._content.astype(dtype)
         else:
             content = self._content._prepare(ufunc, identity, dtype)
 
-        if identity == self.numpy.inf:
+        dtype = content.dtype
+        if ufunc is None:
+            identity = self.numpy.nan
+        elif identity == self.numpy.inf:
             if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 identity = True
             elif self._util_isintegertype(dtype.type):
                 identity = self.numpy.iinfo(dtype.type).max
-
         elif identity == -self.numpy.inf:
             if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 identity = False
@@ -911,7 +923,7 @@ class IndexedMaskedArray(MaskedArray):
                 identity = self.numpy.iinfo(dtype.type).min
 
         out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
+        out[self.isunmasked] = content[self._mask[self.isunmasked]]
         return out
 
     def argmin(self):
-- 
2.43.0


From 1744448d259b9447bdb88b6b91813c95f60791e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 32/53] fix: IndexedArray accepted an index equal to the length
 of its content

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..02cb1fb 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,7 +126,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
+                if self._index.size != 0 and self._index.reshape(-1).max() >= len(self._content):
                     raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
-- 
2.43.0


From 9912c743f3c66b262a7743412c2852d425b4b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 33/53] fix: reductions of IndexedArrays (any/all of numbers,
 empty, Tables) and empty selections kept their type

---
 awkward0/array/indexed.py | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 02cb1fb..df71258 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -156,10 +156,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
         head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(head,) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
@@ -257,22 +254,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _reduce(self, ufunc, identity, dtype):
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
-
-        elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
-
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self._content[self._index], ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
@@ -742,20 +725,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
+            out = self._content.empty_like()
+            for n in self._content._contents:
+                out[n] = self.copy(content=self._content[n])
             return out._reduce(ufunc, identity, dtype)
 
         else:
-            prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(self.dense, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
-- 
2.43.0


From cce0647f37b54e3553cd96ac3155f68b7dfb9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 34/53] fix: SparseArray selections (out of range, empty,
 negative, masks, inner indexes), reductions and *_like

---
 awkward0/array/indexed.py | 71 ++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index df71258..c643ffb 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -337,8 +337,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -346,8 +346,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -355,8 +355,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
@@ -510,7 +510,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
@@ -546,33 +546,31 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 mask[remainder != 0] = False
 
             index = index[mask]
-            content = self._content[mask]
+            content = self._content[:len(mask)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            out = self.copy(length=length, index=index, content=content)
+            if tail != ():
+                out.content = content[(slice(None),) + tail]
+                out.default = self.default[tail]
+            return out
 
         elif isinstance(head, SparseArray) and len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
             head._valid()
             if self._length != head._length:
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
-            # the new index is a cumsum (starting at zero) of the boolean values
-            index = self.numpy.cumsum(head._content)
-            length = index[-1]
-            index[1:] = index[:-1]
-            index[0] = 0
-
-            # find my sparse elements in the mask's sparse elements
-            match1 = self.numpy.searchsorted(head._index, self._index, side="left")
-            match1[match1 >= len(head._index)] = len(head._index) - 1
-            content = self._content[self.numpy.logical_and(head._index[match1] == self._index, head._content[match1])]
+            keep = head.dense
+            position = self.numpy.cumsum(keep) - 1
+            length = self.numpy.count_nonzero(keep)
 
-            # find the mask's sparse elements in my sparse elements
-            match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
-            index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
+            # keep my sparse elements that are True in the mask, at their new positions
+            index = self._index[self._index < self._length]
+            mask = keep[index]
+            index = position[index[mask]]
+            content = self._content[:len(mask)][mask]
 
             return self.copy(length=length, index=index, content=content)
 
@@ -585,24 +583,24 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 head = self.numpy.arange(self._length, dtype=self.INDEXTYPE)[head]
 
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
-                mask = (head < 0)
-                if mask.any():
-                    head[mask] += self._length
+                head = self.numpy.where(head < 0, head + self._length, head)
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                explicit = (match < len(self._index))
+                explicit[explicit] = (self._index[match[explicit]] == head[explicit])
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
                 tags[explicit] = 1
                 index[explicit] = self.numpy.arange(self.numpy.count_nonzero(explicit))
 
-                content = self._content[match[explicit]]
-                default = self.numpy.array([self.default])
-                return self.UnionArray(tags, index, [default, content])[tail]
+                content = self._content[(match[explicit],) + tail]
+                if explicit.all():
+                    return content
+                default = self.numpy.array([self.default if tail == () else self.default[tail]])
+                return self.UnionArray(tags, index, [default, content])
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
@@ -632,7 +630,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
@@ -701,15 +699,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_flatten(self.dense, axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def regular(self):
         self._valid()
-- 
2.43.0


From d42c4f6e516cc196a4a941242f23fdf68b9d2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 35/53] fix: UnionArray columns with unused tags, inner
 selections of mixed tags, operations with flat arrays, index longer than tags

---
 awkward0/array/union.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..ae031c1 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -258,8 +258,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
@@ -295,13 +295,14 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isstringslice(where):
             contents = []
-            for tag in self.numpy.unique(self._tags):
+            alltags = self.numpy.unique(self._tags)
+            for tag in alltags:
                 contents.append(self._contents[tag][where])
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
             else:
-                return self.copy(contents=contents)
+                return self.copy(tags=self.numpy.searchsorted(alltags, self._tags), contents=contents)
 
         if isinstance(where, tuple) and len(where) == 0:
             return self
@@ -319,8 +320,18 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
-            else:
+            elif tail == ():
                 return self.copy(tags=tags, index=index)
+            else:
+                contents = []
+                outtags = self.numpy.empty(tags.shape, dtype=self.TAGTYPE)
+                outindex = self.numpy.empty(tags.shape, dtype=self.INDEXTYPE)
+                for outtag, tag in enumerate(self.numpy.unique(tags)):
+                    mask = (tags == tag)
+                    outtags[mask] = outtag
+                    outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
+                    contents.append(self._contents[tag][(index[mask],) + tail])
+                return self.copy(tags=outtags, index=outindex, contents=contents)
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
@@ -386,7 +397,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and x.shape != ()) else x for x in inputs], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
@@ -426,7 +437,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -435,7 +446,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -478,7 +489,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def _hasjagged(self):
@@ -505,6 +516,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             dtype = self.numpy.dtype(type(identity))
         if dtype is None:
             dtype = self.dtype
+        if self._util_isintegertype(dtype.type) and identity in (self.numpy.inf, -self.numpy.inf):
+            identity = self.numpy.iinfo(dtype.type).max if identity > 0 else self.numpy.iinfo(dtype.type).min
 
         out = None
         index = self._index[:len(self._tags)]
-- 
2.43.0


From 20e3e170666a9cb8762a852a5636d5685b8a9aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 36/53] fix: local2global and global2local of arrays of
 positions

---
 awkward0/array/chunked.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8106624..3272ee3 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -180,7 +180,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(self._chunks), dtype=self.numpy.object_)
+            for i, x in enumerate(self._chunks):
+                chunks[i] = x
+            return chunks[chunkid], index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
@@ -200,14 +203,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(index) != len(chunkid):
                     raise ValueError("len(index) is {0} and len(chunkid) is {1}, but they should be equal".format(len(index), len(chunkid)))
 
+                if len(index) == 0:
+                    return self.numpy.empty(0, dtype=self.INDEXTYPE)
+
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
-                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
@@ -713,19 +718,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            chunkids, chunks = zip(*[(i, x) for i, x in enumerate(self._filledchunks()) if len(x) > 0])
+            indexes = [x.argmin() for x in chunks]
+            best = self.numpy.argmin([x[i] for i, x in zip(indexes, chunks)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            chunkids, chunks = zip(*[(i, x) for i, x in enumerate(self._filledchunks()) if len(x) > 0])
+            indexes = [x.argmax() for x in chunks]
+            best = self.numpy.argmax([x[i] for i, x in zip(indexes, chunks)])
+            return self.offsets[chunkids[best]] + indexes[best]
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-- 
2.43.0


From 03e473965f6864816425c80b2977de907c0a08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 37/53] fix: stale chunk offsets in selections, inner indexes
 dropped, selections of non-NumPy chunks, empty chunks in reducers, partly
 filled AppendableArrays

---
 awkward0/array/chunked.py | 75 ++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3272ee3..7304dcc 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -25,6 +25,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if chunks is not None:
             out.chunks = chunks
             out._chunksizes = []
+            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
@@ -41,19 +42,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
@@ -264,6 +265,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         offsets = self.offsets
         return [slice(start, stop) for start, stop in zip(offsets[:-1], offsets[1:])]
 
+    def _filledchunks(self):
+        # the last chunk of an AppendableArray may be longer than its filled part
+        self.knowchunksizes()
+        return [chunk if size == len(chunk) else chunk[:size] for chunk, size in zip(self._chunks, self._chunksizes)]
+
     def _valid(self):
         if self.check_whole_valid:
             if len(self._chunksizes) > len(self._chunks):
@@ -300,7 +306,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
                 out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._filledchunks(), self._slices()):
                     out[slc] = chunk
                 return out
         else:
@@ -333,7 +339,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 raise ValueError("A ChunkedArray can only be used as a slice of a ChunkedArray if they have the same chunk sizes")
             chunks = []
             chunksizes = []
-            for c, h in zip(self.chunks, head.chunks):
+            for c, h in zip(self._filledchunks(), head._filledchunks()):
                 if isinstance(c, awkward0.array.virtual.VirtualArray):
                     c = c.array
                 if isinstance(h, awkward0.array.virtual.VirtualArray):
@@ -451,6 +457,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
+                # arrays in the tail are paired with the head, element by element
+                tail = tuple(self.numpy.broadcast_to(x, head.shape) if isinstance(x, (list, self.numpy.ndarray)) else x for x in tail)
+
                 diff = (chunkid[1:] - chunkid[:-1])
                 if (diff >= 0).all():
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
@@ -460,11 +469,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     offsets = list(self.numpy.nonzero(mask)[0]) + [len(chunkid)]
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
-                        localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        slc = slice(offsets[i], offsets[i + 1])
+                        localtail = tuple(x[slc] if isinstance(x, self.numpy.ndarray) else x for x in tail)
+                        chunks.append(self._chunks[cid][(head[slc] - self.offsets[cid],) + localtail])
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type):
+                elif tail == () and all(isinstance(self._chunks[cid], self.numpy.ndarray) for cid in self.numpy.unique(chunkid)):
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -473,29 +483,28 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         mask = (chunkid == cid)
                         out[mask] = self._chunks[cid][head[mask] - offsets[cid]]
 
-                    if tail == ():
-                        return out
-                    else:
-                        return out[(slice(None),) + tail]
-
-                elif tail == ():
-                    return self.IndexedArray(head, self)
+                    return out
 
                 else:
-                    raise NotImplementedError
+                    order = self.numpy.argsort(chunkid, kind="mergesort")
+                    ordertail = tuple(x[order] if isinstance(x, self.numpy.ndarray) else x for x in tail)
+                    return self.IndexedArray(self.IndexedArray.invert(order), self[(head[order],) + ordertail])
 
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
 
                 chunks = []
-                for chunk, slc in zip(self._chunks, self._slices()):
+                for chunk, slc in zip(self._filledchunks(), self._slices()):
                     x = chunk[head[slc]]
                     if len(x) > 0:
                         x = x[(slice(None),) + tail]
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that sliced.type == self.type
+
                 return self.copy(chunks=chunks)
 
             else:
@@ -553,7 +562,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             batch = []
             for x in inputs:
                 if isinstance(x, ChunkedArray):
-                    batch.append(x._chunks[i])
+                    batch.append(x._chunks[i][:x._chunksizes[i]])
+                elif isinstance(x, self.numpy.ndarray) and x.shape == ():
+                    batch.append(x)
                 elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                     batch.append(x[slc])
                 else:
@@ -599,10 +610,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        return self.numpy.concatenate([self._util_counts(x) for x in self._filledchunks()])
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._filledchunks()])
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
@@ -675,7 +686,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        return self.numpy.concatenate([self._util_regular(x) for x in self._filledchunks()])
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
@@ -683,7 +694,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if self._chunksizes[chunkid] > 0:
                 return self._util_hasjagged(self._chunks[chunkid])
         else:
-            return False
+            return len(self._chunks) > 0 and self._util_hasjagged(self._chunks[0])
 
     def _reduce(self, ufunc, identity, dtype):
         self.knowchunksizes()
@@ -703,11 +714,15 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 this = self._util_reduce(chunk[:self._chunksizes[chunkid]], ufunc, identity, dtype)
                 if out is None:
                     out = this
+                elif ufunc is None or ufunc is self.numpy.count_nonzero:
+                    out = out + this
                 else:
                     out = ufunc(out, this)
 
         if out is None:
-            if dtype is None:
+            if len(self._chunks) > 0:
+                return self._util_reduce(self._chunks[0][:0], ufunc, identity, dtype)
+            elif dtype is None:
                 return identity
             else:
                 return dtype.type(identity)
@@ -739,6 +754,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         for chunkid, chunk in enumerate(self._chunks):
             if self._chunksizes[chunkid] > 0:
                 this = chunk[:self._chunksizes[chunkid]]
+                if not isinstance(this, self.numpy.ndarray):
+                    this = this._prepare(ufunc, identity, dtype)
                 if out is None:
                     if dtype is None and issubclass(this.dtype.type, (self.numpy.bool_, self.numpy.bool)):
                         dtype = self.numpy.dtype(type(identity))
@@ -827,7 +844,7 @@ class AppendableArray(ChunkedArray):
         self.dtype = dtype
         self.chunks = chunks
 
-    def copy(self, chunkshape=None, dtype=None, chunks=None):
+    def copy(self, chunkshape=None, dtype=None, chunks=None, chunksizes=None):
         out = self.__class__.__new__(self.__class__)
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
@@ -836,10 +853,12 @@ class AppendableArray(ChunkedArray):
             out._chunkshape = chunkshape
         if dtype is not None:
             out._dtype = dtype
-        if chunks is not None:
-            out.chunks = chunks
         out._chunksizes = list(self._chunksizes)
         out._types = list(self._types)
+        if chunks is not None:
+            out.chunks = chunks
+        if chunksizes is not None:
+            out._chunksizes = list(chunksizes)
         return out
 
     def _mine(self, overrides):
@@ -985,10 +1004,10 @@ class AppendableArray(ChunkedArray):
         chunks = []
         for chunk in self._chunks:
             chunks.append(chunk.astype(dtype))
-        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
+        return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks, chunksizes=self._chunksizes)
 
     def fillna(self, value):
         chunks = []
         for chunk in self._chunks:
             chunks.append(self._util_fillna(chunk, value))
-        return self.copy(chunks=chunks)
+        return self.copy(chunks=chunks, chunksizes=self._chunksizes)
-- 
2.43.0


From 241a51877ae8cb35b6451c87abfdcbc78711e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:27 +0000
Subject: [PATCH 38/53] fix: Rows of Table views, *_like/reducers/pad/astype of
 Tables, in-place changes of the selecting array, columns longer than the
 table

---
 awkward0/array/table.py | 79 ++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..c3f2252 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import keyword
 import numbers
 import re
 import types
@@ -80,7 +81,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
@@ -96,7 +97,7 @@ class Table(awkward0.array.base.AwkwardArray):
                     index = (index,)
                 if not isinstance(where, tuple):
                     where = (where,)
-                return self._table.Row(table, index + where)
+                return self._table.Row(self._table, index + where)
 
         def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
             if "out" in kwargs:
@@ -110,7 +111,10 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    # the row's index is a position in the columns, not in the table's view
+                    table = inputs[i]._table.copy()
+                    table._view = (inputs[i]._index, 1, 1)
+                    inputs[i] = table
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
@@ -354,6 +358,7 @@ class Table(awkward0.array.base.AwkwardArray):
     def zeros_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.zeros_like(x)
             else:
@@ -363,6 +368,7 @@ class Table(awkward0.array.base.AwkwardArray):
     def ones_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.ones_like(x)
             else:
@@ -460,6 +466,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0)
             stop = start + step*length
             if stop < 0:
                 stop = None
@@ -525,9 +533,7 @@ class Table(awkward0.array.base.AwkwardArray):
             head = self._util_toarray(head, self.INDEXTYPE)
             if self._util_isintegertype(head.dtype.type):
                 length = self._length()
-                negative = (head < 0)
-                if negative.any():
-                    head[negative] += length
+                head = self.numpy.where(head < 0, head + length, head)
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
 
@@ -605,6 +611,9 @@ class Table(awkward0.array.base.AwkwardArray):
                         contents[n] = self._contents[n]
                     except KeyError:
                         raise ValueError("no column named {0}".format(repr(n)))
+                    if self._view is None and len(contents[n]) > self._length():
+                        # the column that limits the table's length might not be selected
+                        contents[n] = contents[n][:self._length()]
                 return self.copy(contents=contents)
 
         if isinstance(where, tuple) and where == ():
@@ -698,12 +707,10 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in inputsdict.items():
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
+            thislen = len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
-                else:
-                    tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+                tuplelen = thislen
+            elif thislen != tuplelen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -734,7 +741,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
@@ -775,14 +782,14 @@ class Table(awkward0.array.base.AwkwardArray):
         raise ValueError("cannot flatten through a Table")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
+        out = self.empty_like()
         for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
+            out[n] = self._util_pad(x[self._index()], length, maskedwhen, clip, axis)
         return out
 
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        pairs = [(n, self._util_regular(x[self._index()])) for n, x in self._contents.items()]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
@@ -796,18 +803,7 @@ class Table(awkward0.array.base.AwkwardArray):
             contents = OrderedDict()
             for n, x in out._contents.items():
                 if isinstance(x, Table) and x.istuple:
-                    if x._view is None:
-                        view = slice(x._length())
-
-                    elif isinstance(x._view, tuple):
-                        start, step, length = x._view
-                        stop = start + step*length
-                        if stop < 0:
-                            stop = None
-                        view = slice(start, stop, step)
-
-                    else:
-                        view = x._view
+                    view = x._index()
 
                     for y in x._contents.values():
                         contents[str(len(contents))] = y[view]
@@ -830,9 +826,9 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
+            out = self.empty_like()
             for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
+                out[n] = self._util_reduce(x[self._index()], ufunc, identity, dtype)
             return out
 
         else:
@@ -845,7 +841,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 self.numpy.multiply: "prod",
                 self.numpy.minimum: "min",
                 self.numpy.maximum: "max"
-                }[ufunc])
+                }.get(ufunc, getattr(ufunc, "__name__", "reduce")))
             out._showdict = True
             for n in self._contents:
                 x = self._contents[n][self._index()]
@@ -853,12 +849,13 @@ class Table(awkward0.array.base.AwkwardArray):
             return out.Row(out, 0)
 
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
+        out = self.empty_like()
         for n, x in self._contents.items():
+            x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
+                    x = x.astype(self.numpy.dtype(type(identity)))
+                elif dtype is not None:
                     x = x.astype(dtype)
             else:
                 x = x._prepare(ufunc, identity, dtype)
@@ -878,15 +875,15 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
+        out = self.empty_like()
         for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
+            out[n] = x[self._index()].astype(dtype)
         return out
 
     def fillna(self, value):
-        out = self.copy(contents={})
+        out = self.empty_like()
         for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
+            out[n] = self._util_fillna(x[self._index()], value)
         return out
 
     @classmethod
@@ -898,13 +895,7 @@ class Table(awkward0.array.base.AwkwardArray):
         out = tables[0].deepcopy(contents=OrderedDict())
 
         for n in tables[0]._contents:
-            content_type = type(tables[0]._contents[n])
-            if content_type == cls.numpy.ndarray:
-                concatenate = cls.numpy.concatenate
-            else:
-                concatenate = content_type.concatenate
-
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = cls._util_concatenate([t._contents[n][t._index()] for t in tables])
 
         out._valid()
         return out
-- 
2.43.0


From 84a0eebe15966260f097e9c886d71a3403b64b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 39/53] fix: StringArray.fromstr, decoders without keywords,
 non-contiguous and big-endian NumPy strings, equality and concatenation
 across encodings and with Python strings

---
 awkward0/array/objects.py | 52 ++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..8673f04 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -198,7 +198,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=content)
 
         else:
-            return [x[tail] for x in content]   # FIXME: in self.copy(content=content), right?
+            return [self.generator(x, *self._args, **self._kwargs)[tail] for x in content]   # FIXME: in self.copy(content=content), right?
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
@@ -283,7 +283,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         out = arrays[0].copy(content=[])
-        out._content = arrays[0]._content.__class__.concatenate([a._content for a in arrays])
+        out._content = cls._util_concatenate([a._content for a in arrays])
         return out
 
     _topandas_name = "ObjectSeries"
@@ -306,6 +306,17 @@ class StringMethods(object):
     StringMethods
     """
 
+    def _tostrings(self, value, other):
+        # Python strings and sequences of strings that can be compared with a StringArray
+        if isinstance(value, (str, bytes)):
+            return self.StringArray.fromstr(len(other), value, encoding=None if isinstance(value, bytes) and bytes is not str else "utf-8")
+        elif isinstance(value, (list, tuple)) and all(isinstance(x, str) for x in value):
+            return self.StringArray.fromiter(value)
+        elif isinstance(value, (list, tuple)) and all(isinstance(x, bytes) for x in value):
+            return self.StringArray.fromiter(value, encoding=None)
+        else:
+            return value
+
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
@@ -318,24 +329,29 @@ class StringMethods(object):
                 raise ValueError("invalid number of arguments")
             left, right = inputs[0], inputs[1]
 
-            if isinstance(left, (str, bytes)):
-                left = self.StringArray.fromstr(len(right), left)
-            elif isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
+            left, right = self._tostrings(left, right), self._tostrings(right, left)
+
+            if isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
                 left = self.StringArray.fromnumpy(left)
             elif isinstance(left, self.numpy.ndarray) and left.dtype == self.numpy.dtype(object):
                 left = self.StringArray.fromiter(left)
             elif not isinstance(left, StringMethods):
                 return self.numpy.zeros(len(right), dtype=self.BOOLTYPE)
 
-            if isinstance(right, (str, bytes)):
-                right = self.StringArray.fromstr(len(left), right)
-            elif isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
+            if isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
                 right = self.StringArray.fromnumpy(right)
             elif isinstance(right, self.numpy.ndarray) and right.dtype == self.numpy.dtype(object):
                 right = self.StringArray.fromiter(right)
             elif not isinstance(right, StringMethods):
                 return self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
 
+            if len(left) != len(right):
+                raise ValueError("cannot compare StringArrays of lengths {0} and {1}".format(len(left), len(right)))
+
+            if left.encoding != right.encoding and left.encoding is not None and right.encoding is not None:
+                # the same string has different bytes in different encodings
+                left, right = self.StringArray.fromiter(left), self.StringArray.fromiter(right)
+
             left = self.JaggedArray(left.starts, left.stops, left.content)
             right = self.JaggedArray(right.starts, right.stops, right.content)
 
@@ -361,7 +377,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x, "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
@@ -379,11 +395,9 @@ class StringArray(StringMethods, ObjectArray):
         if encoding is not None:
             encoder = codecs.getencoder(encoding)
             string = encoder(string)[0]
-        content = cls.numpy.empty(length * len(string), dtype=cls.CHARTYPE)
-        for i, x in string:
-            content[0::length] = ord(x)                   # FIXME: use numpy.tile!
+        content = cls.numpy.tile(cls.numpy.frombuffer(string, dtype=cls.CHARTYPE), length)
         counts = cls.numpy.empty(length, dtype=cls.INDEXTYPE)
-        counts[:] = length
+        counts[:] = len(string)
         return cls.fromcounts(counts, content, encoding)
 
     @classmethod
@@ -394,6 +408,7 @@ class StringArray(StringMethods, ObjectArray):
             encoding = "utf-32le"
         else:
             raise TypeError("not a string array")
+        array = cls.numpy.ascontiguousarray(array, dtype=array.dtype.newbyteorder("<"))
 
         starts = cls.numpy.arange(                   0,  len(array)      * array.dtype.itemsize, array.dtype.itemsize)
         stops  = cls.numpy.arange(array.dtype.itemsize, (len(array) + 1) * array.dtype.itemsize, array.dtype.itemsize)
@@ -650,7 +665,7 @@ class StringArray(StringMethods, ObjectArray):
         if isinstance(content, awkward0.array.jagged.JaggedArray):
             return self.fromjagged(content, self._encoding)
         else:
-            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content))
+            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content), self._encoding)
 
     def pad(self, length, maskedwhen=None, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
@@ -694,14 +709,23 @@ class StringArray(StringMethods, ObjectArray):
     #     jagged = self.JaggedArray.concatenate([x._content for x in arrays], axis=axis)
     #     return self.fromjagged(jagged, self.encoding)
 
+    @classmethod
+    def _sameencoding(cls, arrays):
+        if all(x._encoding == arrays[0]._encoding for x in arrays) or any(x._encoding is None for x in arrays):
+            return arrays
+        else:
+            return [cls.fromiter(x) for x in arrays]
+
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        arrays = cls._sameencoding(arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
 
     @classmethod
     def _concatenate_axis1(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
+        arrays = cls._sameencoding(arrays)
         tmp = cls.JaggedArray.fget(None)._concatenate_axis1([x._content for x in arrays])
         tmp._content = tmp._content.astype(cls.CHARTYPE)
         return cls.fromjagged(tmp, encoding=arrays[0]._encoding)
-- 
2.43.0


From 2e4ba6141b671c180665629659e69afa3d3cc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 40/53] fix: VirtualArray edits after eviction and after
 deletes, keys of copies, deepcopy and ismaterialized with a cache, edits lost
 in serialization

---
 awkward0/array/virtual.py | 83 ++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..dfb57ec 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -80,14 +80,22 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out.nbytes = nbytes
         if persistvirtual is not None:
             out.persistvirtual = persistvirtual
+        if isinstance(out._array, VirtualArray.TransientKey):
+            # a TransientKey belongs to one object: it becomes invalid when that object is garbage collected
+            out._array = out.key
         return out
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        if isinstance(out._array, VirtualArray.TransientKey):
+            if self.ismaterialized:
+                out._array = self._util_deepcopy(self.array)
+        elif not isinstance(out._array, awkward0.util.string):
+            out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
-            for n in list(out._setitem):
-                out._setitem[n] = self._util_deepcopy(out._setitem[n])
+            for n, x in list(out._setitem.items()):
+                if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    out._setitem[n] = self._util_deepcopy(x)
         return out
 
     def empty_like(self, **overrides):
@@ -111,7 +119,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __awkward_serialize__(self, serializer):
         self._valid()
 
-        if self._persistvirtual:
+        if self._persistvirtual and not self._setitem and not self._delitem:
             out = serializer.encode_call(
                 ["awkward0", "VirtualArray"],
                 serializer(self._generator, "VirtualArray.generator"),
@@ -320,16 +328,27 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if self._cache is None:
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
         else:
-            return self._array is not None and self._array in self._cache
+            if not isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+                return self._array is not None
+            elif callable(getattr(self._cache, "__contains__", None)):
+                return self._array in self._cache
+            else:
+                try:
+                    self._cache[self._array]
+                except KeyError:
+                    return False
+                else:
+                    return True
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
+        if self._delitem is not None:
+            for n in self._delitem:
+                if n in array.columns:
+                    del array[n]
         if self._setitem is not None:
             for n, x in self._setitem.items():
                 array[n] = x
-        if self._delitem is not None:
-            for n in self._delitem:
-                del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -350,7 +369,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
-        if getattr(self, "_cache", None) is not None and isinstance(self._array, VirtualArray.TransientKey):
+        if getattr(self, "_cache", None) is not None and isinstance(getattr(self, "_array", None), VirtualArray.TransientKey):
             try:
                 del self._cache[self._array]
             except:
@@ -368,24 +387,36 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __getitem__(self, where):
         return self.array[where]
 
-    def __setitem__(self, where, what):
-        self.array[where] = what
+    def _edited(self, array):
+        # the array has just been edited in place (it might have been evicted in the meantime)
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
+        if self._cache is not None and isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            self._cache[self._array] = array
+
+    def __setitem__(self, where, what):
+        array = self.array
+        array[where] = what
         if self._setitem is None:
             self._setitem = OrderedDict()
-        self._setitem[where] = what
+        if not isinstance(where, awkward0.util.string) and self._util_isstringslice(where):
+            for n, x in zip(where, what.unzip()):
+                self._setitem[n] = x
+        else:
+            self._setitem[where] = what
+        self._edited(array)
 
     def __delitem__(self, where):
-        del self.array[where]
-        if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem
+        array = self.array
+        del array[where]
         if self._delitem is None:
             self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        for n in [where] if isinstance(where, awkward0.util.string) else where:
+            if self._setitem is not None and n in self._setitem:
+                del self._setitem[n]
+            if n not in self._delitem:
+                self._delitem.append(n)
+        self._edited(array)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
@@ -406,8 +437,12 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def counts(self):
         return self._util_counts(self.array)
 
-    def boolmask(self, maskedwhen=True):
-        return self._util_boolmask(self.array, maskedwhen)
+    def boolmask(self, maskedwhen=None):
+        array = self.array
+        if maskedwhen is None and isinstance(array, awkward0.array.base.AwkwardArray):
+            return array.boolmask()        # the default is the array's own
+        else:
+            return self._util_boolmask(array, maskedwhen is None or maskedwhen)
 
     def choose(self, n):
         return self.array.choose(n)
@@ -428,10 +463,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array.argpairs(nested=nested)
 
     def cross(self, other, nested=False):
-        return self.array.cross(other, nested=nested)
+        return self.array.cross(other.array if isinstance(other, VirtualArray) else other, nested=nested)
 
     def argcross(self, other, nested=False):
-        return self.array.argcross(other, nested=nested)
+        return self.array.argcross(other.array if isinstance(other, VirtualArray) else other, nested=nested)
 
     def flattentuple(self):
         return self._util_flattentuple(self.array)
-- 
2.43.0


From 427bac20a377aa72ed0fa788029179e73628aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 41/53] fix: pickles and persist functions bypassed the
 whitelist, whitelist items longer than the path, schemas choosing their own
 whitelist, internals reachable through functions

---
 awkward0/persist.py | 102 ++++++++++++++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 32 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..ec57f42 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -5,6 +5,7 @@
 import base64
 import fnmatch
 import importlib
+import io
 import json
 import numbers
 import os
@@ -37,13 +38,13 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
-        ["awkward0.persist"],
+        ["awkward0.persist", "json2type"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
         ["awkward", "Table"],
         ["awkward", "numpy", "frombuffer"],
         ["awkward.util", "frombuffer"],
-        ["awkward.persist"],
+        ["awkward.persist", "json2type"],
         ["awkward.arrow", "_ParquetFile", "fromjson"],
         ["uproot3_methods.classes.*"],
         ["uproot3_methods.profiles.*"],
@@ -60,31 +61,57 @@ def frompython(obj):
 def topython(string):
     return pickle.loads(base64.b64decode(string.encode("ascii")))
 
+class _PlainUnpickler(pickle.Unpickler):
+    # plain values (numbers, strings, bytes, tuples, NumPy scalars and arrays) but no other classes or functions
+    plain = set([(m, n) for m in ("builtins", "__builtin__") for n in ("complex", "set", "frozenset", "bytearray", "range", "slice")] +
+                [(m, n) for m in ("numpy.core.multiarray", "numpy._core.multiarray") for n in ("scalar", "_reconstruct")] +
+                [("numpy", "dtype"), ("numpy", "ndarray"), ("_codecs", "encode"), ("collections", "OrderedDict")])
+
+    def find_class(self, module, name):
+        if (module, name) not in self.plain:
+            raise RuntimeError("pickled object needs {0}.{1}; to unpickle any object, pass a whitelist argument that includes\n\n    [\"awkward0.persist\", \"topython\"]".format(module, name))
+        return pickle.Unpickler.find_class(self, module, name)
+
+def plaintopython(string):
+    return _PlainUnpickler(io.BytesIO(base64.b64decode(string.encode("ascii")))).load()
+
+def whitelisted(obj, whitelist):
+    for white in whitelist:
+        if isinstance(white, awkward0.util.string):
+            white = [white]
+        white = list(white)
+        # a whitelist item can be shorter than the path (to allow everything in a module or class), but not longer
+        if len(white) <= len(obj) and all(fnmatch.fnmatchcase(n, p) for n, p in zip(obj, white)):
+            # Python's internals (such as "__globals__") are not in the class or function they can be reached through
+            if white[-1:] == ["*"] or not any(n.startswith("__") for n in obj[len(white):]):
+                return True
+    return False
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
-    for white in whitelist:
-        for n, p in zip(obj, white):
-            if not fnmatch.fnmatchcase(n, p):
-                break
-        else:
-            if obj[0] == "awkward0":
-                obj = [awkwardlib] + obj[1:]
-            elif obj[0] == "awkward":
-                obj = [awkwardlib] + obj[1:]
-            if obj[0].startswith("uproot_methods"):
-                obj = ["uproot3_methods" + obj[0][14:]] + obj[1:]
-            gen, genname = importlib.import_module(obj[0]), obj[1:]
-            if not isinstance(gen, types.ModuleType):
-                raise TypeError("first item of a function description must be a module")
-            if genname[:1] == ["numpy"]:
-                gen, genname = getattr(gen, genname[0]), genname[1:]
-            while len(genname) > 0:
-                gen, genname = getattr(gen, genname[0]), genname[1:]
-                if isinstance(gen, types.ModuleType):
-                    raise TypeError("non-first items of a function description must not be a module")
-            break
-    else:
+    if not isinstance(obj, (list, tuple)) or len(obj) == 0 or not all(isinstance(n, awkward0.util.string) for n in obj):
+        raise TypeError("function description must be a non-empty list of strings, found: {0}".format(repr(obj)))
+    obj = list(obj)
+    if not whitelisted(obj, whitelist):
         raise RuntimeError("callable not in whitelist; add it by passing a whitelist argument:\n\n    whitelist = awkward0.persist.whitelist + [{0}]".format(repr(obj)))
+
+    if obj[0] == "awkward0":
+        obj = [awkwardlib] + obj[1:]
+    elif obj[0] == "awkward":
+        obj = [awkwardlib] + obj[1:]
+    elif obj[0].startswith("awkward."):
+        obj = [awkwardlib + obj[0][7:]] + obj[1:]
+    if obj[0].startswith("uproot_methods"):
+        obj = ["uproot3_methods" + obj[0][14:]] + obj[1:]
+    gen, genname = importlib.import_module(obj[0]), obj[1:]
+    if not isinstance(gen, types.ModuleType):
+        raise TypeError("first item of a function description must be a module")
+    if genname[:1] == ["numpy"]:
+        gen, genname = getattr(gen, genname[0]), genname[1:]
+    while len(genname) > 0:
+        gen, genname = getattr(gen, genname[0]), genname[1:]
+        if isinstance(gen, types.ModuleType):
+            raise TypeError("non-first items of a function description must not be a module")
     return gen
 
 def dtype2json(obj):
@@ -518,24 +545,32 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
     if seen is None:
         seen = ObjRef()
 
-    if isinstance(whitelist, str):
-        whitelist = [whitelist]
-    elif len(whitelist) > 0 and isinstance(whitelist[0], str):
+    if isinstance(whitelist, awkward0.util.string):
+        whitelist = [[whitelist]]
+    elif len(whitelist) > 0 and isinstance(whitelist[0], awkward0.util.string):
         whitelist = [whitelist]
 
+    def function(spec):
+        gen = spec2function(spec, whitelist=whitelist)
+        if gen is json2type:
+            # the schema must not be able to choose another whitelist
+            return lambda obj: json2type(obj, whitelist=whitelist)
+        else:
+            return gen
+
     def unfill(schema):
         if isinstance(schema, dict):
             if "call" in schema and isinstance(schema["call"], list) and len(schema["call"]) > 0:
-                gen = spec2function(schema["call"], whitelist=whitelist)
+                gen = function(schema["call"])
                 args = [unfill(x) for x in schema.get("args", [])]
 
                 kwargs = {}
                 if schema.get("cacheable", False):
                     kwargs["cache"] = cache
-                if schema.get("whitelistable", False):
-                    kwargs["whitelist"] = whitelist
                 if "kwargs" in schema:
                     kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
+                if schema.get("whitelistable", False) and schema["call"][1:] != ["json2type"]:
+                    kwargs["whitelist"] = whitelist
 
                 out = gen(*args, **kwargs)
 
@@ -561,13 +596,16 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = json2dtype(schema["dtype"])
 
             elif "function" in schema:
-                out = spec2function(schema["function"], whitelist=whitelist)
+                out = function(schema["function"])
 
             elif "json" in schema:
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                if whitelisted(["awkward0.persist", "topython"], whitelist):
+                    out = topython(schema["python"])
+                else:
+                    out = plaintopython(schema["python"])
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From b5673bd10566c3862ad7a75169547ebe04d1b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 42/53] fix: padded dtypes, masked and object NumPy arrays,
 references read before they are defined, one compression pair

---
 awkward0/array/table.py   |  5 ++++-
 awkward0/array/virtual.py |  7 +++++--
 awkward0/persist.py       | 26 ++++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index c3f2252..2b1a31b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -377,6 +377,9 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def __awkward_serialize__(self, serializer):
         self._valid()
+        if isinstance(self._view, self.numpy.ndarray):
+            # in the order that they will be deserialized
+            view = serializer(self._view, "Table.view")
         out = serializer.encode_call(
             ["awkward0", "Table", "frompairs"],
             {"pairs": [
@@ -400,7 +403,7 @@ class Table(awkward0.array.base.AwkwardArray):
         elif isinstance(self._view, self.numpy.ndarray):
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
-                serializer(self._view, "Table.view"),
+                view,
                 out
             )
 
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index dfb57ec..728dcb3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -146,8 +146,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             if others:
                 out["kwargs"] = others
         else:
-            out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            array = self.array
+            out = serializer(array, "VirtualArray.array")
+            if out.pop("id", None) is not None:
+                # this object is stored in place of its array: references to either one are references to it
+                serializer.seen.alias(array, self)
 
         return out
 
diff --git a/awkward0/persist.py b/awkward0/persist.py
index ec57f42..38747c2 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -22,6 +22,7 @@ except ImportError:
 import numpy
 
 import awkward0.type
+import awkward0.util
 import awkward0.version
 
 compression = [
@@ -297,6 +298,10 @@ class ObjRef(object):
         del self._r2o[self._i2r[id(obj)]]
         del self._i2r[id(obj)]
 
+    def alias(self, obj, other):
+        # obj can be referred to as other (obj is still kept in memory by its own reference)
+        self._i2r[id(obj)] = self[other]
+
     def get(self, obj, default=None):
         return self[obj] if obj in self else default
 
@@ -346,6 +351,9 @@ class Serializer(object):
     def _encode_primitive(cls, obj):
         if isinstance(obj, numpy.dtype):
             return {"dtype": dtype2json(obj)}
+        elif obj is None or isinstance(obj, (bool, numbers.Integral, awkward0.util.string)):
+            # values, which have no identity to refer to
+            return {"json": jsonable(obj)}
 
     @classmethod
     def _obj2spec(cls, obj, test=True):
@@ -372,6 +380,17 @@ class Serializer(object):
             except:
                 pass
 
+        if isinstance(obj, numpy.ma.MaskedArray) and obj.ndim == 1:
+            return self.encode_call(
+                ["awkward0", "MaskedArray"],
+                self(numpy.ma.getmaskarray(obj), "MaskedArray.mask"),
+                self(numpy.ma.getdata(obj), "MaskedArray.content"),
+                {"json": True},
+            )
+
+        if isinstance(obj, numpy.ndarray) and (obj.dtype.hasobject or isinstance(obj, numpy.ma.MaskedArray)):
+            return self.encode_python(obj)
+
         if isinstance(obj, numpy.ndarray):
             return self._encode_numpy(obj, context)
 
@@ -491,6 +510,8 @@ class BlobSerializer(Serializer):
             comp = [{"minsize": 0, "types": object, "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}]
         elif not isinstance(comp, (list, tuple)):
             comp = [comp]
+        elif isinstance(comp, tuple) and len(comp) == 2 and callable(comp[0]) and isinstance(comp[1], (list, tuple)) and all(isinstance(x, awkward0.util.string) for x in comp[1]):
+            comp = [(comp[0], tuple(comp[1]))]     # a single (compress, decompress) pair
 
         return list(map(cls.CompressPolicy.parse, comp))
 
@@ -506,6 +527,11 @@ class BlobSerializer(Serializer):
         return dict(read=key)
 
     def _encode_numpy(self, obj, context):
+        packed = json2dtype(json.loads(json.dumps(dtype2json(obj.dtype))))
+        if packed != obj.dtype:
+            # the JSON representation of a dtype doesn't have gaps between its fields
+            obj = obj.astype(packed)
+
         if obj.ndim > 1:
             dtype = numpy.dtype((obj.dtype, obj.shape[1:]))
         else:
-- 
2.43.0


From a385b7208163b1aec38a631588f1895d3c70c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 43/53] fix: dictionary encoding of strings ending in zeros;
 objects with and without attributes

---
 awkward0/generate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..c86b050 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -138,6 +138,12 @@ class SimpleFillable(Fillable):
         else:
             return UnionFillable(self, self.awkwardlib).append(obj, tpe)
 
+    def dictionary(self):
+        # not numpy.unique because Numpy strings can't end with zeros
+        dictionary = sorted(set(self.data))
+        position = dict((x, i) for i, x in enumerate(dictionary))
+        return dictionary, self.awkwardlib.numpy.array([position[x] for x in self.data], dtype=self.awkwardlib.IndexedArray.INDEXTYPE)
+
 class BoolFillable(SimpleFillable):
     def finalize(self, **options):
         return self.awkwardlib.numpy.array(self.data, dtype=self.awkwardlib.JaggedArray.BOOLTYPE)
@@ -150,7 +156,7 @@ class BytesFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictionary()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding=None))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding=None)
@@ -159,7 +165,7 @@ class StringFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.dictionary()
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding="utf-8"))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding="utf-8")
@@ -248,7 +254,7 @@ class ObjectFillable(Fillable):
         self.content.clear()
 
     def matches(self, tpe):
-        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (len(tpe[0]) == 0 or self.content.matches(tpe[0]))
+        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (isinstance(self.content, JaggedFillable) if len(tpe[0]) == 0 else self.content.matches(tpe[0]))
 
     def append(self, obj, tpe):
         if tpe is None:
-- 
2.43.0


From 6163e0e5ee7501949ba63e853e7ebedc4e78ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 44/53] fix: types of evicted virtual columns were mixed up
 when memory was reused

---
 awkward0/type.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..eefc41f 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -649,6 +649,8 @@ def _fromarray(array, seen):
         else:
             placeholder.value = array._gettype(seen)
 
+        placeholder.array = array     # the id in seen is only good as long as the array exists
+
     return seen[id(array)]
 
 class Placeholder(Type):
-- 
2.43.0


From 9f91695d07e32f26e098d9a4c725867410be8f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 45/53] fix: hascolumn, isnumpy, dtype and shape of types with
 string, optional and union parts

---
 awkward0/type.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index eefc41f..0351f4e 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -294,7 +294,7 @@ class ArrayType(Type):
         elif isinstance(self._to, numpy.dtype):
             return True
         else:
-            return self._to._isnumpy(seen)
+            return isinstance(self._to, Type) and self._to._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
@@ -357,10 +357,12 @@ class TableType(Type):
     def dtype(self):
         out = []
         for n, x in self._fields.items():
-            if x.shape != ():
-                raise TypeError("Table with non-primitive fields has no Numpy dtype")
-            elif isinstance(x, numpy.dtype):
+            if isinstance(x, numpy.dtype):
                 out.append((n, x))
+            elif not isinstance(x, Type):
+                out.append((n, numpy.dtype(object)))
+            elif x.shape != ():
+                raise TypeError("Table with non-primitive fields has no Numpy dtype")
             else:
                 out.append((n, x.dtype))
         return numpy.dtype(out)
@@ -376,7 +378,7 @@ class TableType(Type):
         for x in self._fields.values():
             if isinstance(x, numpy.dtype):
                 return True
-            elif not isinstance(x, OptionType) and x._isnumpy(seen):
+            elif isinstance(x, Type) and not isinstance(x, OptionType) and x._isnumpy(seen):
                 return x.shape != ()
             else:
                 return False
@@ -568,13 +570,16 @@ class OptionType(Type):
         if isinstance(self._type, numpy.dtype):
             return True
         else:
-            return self._type._isnumpy(seen)
+            return isinstance(self._type, Type) and self._type._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        if isinstance(self._type, numpy.dtype):
+            return self._type.names is not None and name in self._type.names
+        else:
+            return isinstance(self._type, Type) and self._type._hascolumn(name, seen)
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
-- 
2.43.0


From bc6401f1a91524248edda30b9903c09954a23d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 46/53] fix: unions equal whatever their possibilities,
 recursive and shared types unequal to themselves, hashes inconsistent with
 equality

---
 awkward0/type.py | 85 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 29 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 0351f4e..796a445 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -156,7 +156,7 @@ class Type(object):
                     x._to = newtable
 
             # apply union(X, union(Y)) == union(X, Y)
-            if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
+            while isinstance(x, UnionType) and any(isinstance(y, UnionType) and y is not x for y in x._possibilities):
                 possibilities = []
                 for y in x._possibilities:
                     if isinstance(y, UnionType):
@@ -167,7 +167,7 @@ class Type(object):
                 x._possibilities = possibilities
 
             # apply optional(optional(X)) == optional(X)
-            if isinstance(x, OptionType) and isinstance(x._type, OptionType):
+            while isinstance(x, OptionType) and isinstance(x._type, OptionType) and x._type is not x:
                 x = x._type
 
             seen.add(id(x))
@@ -199,6 +199,8 @@ class Type(object):
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False    # Numpy would compare dtypes with two.dtype
         elif one == two:
             return True
         elif callable(one) and callable(two):
@@ -206,6 +208,27 @@ class Type(object):
         else:
             return False
 
+    def __hash__(self):
+        return hash(Type._hashable(Type._canonical(Type._copy(self, {}), set()), 4))
+
+    @staticmethod
+    def _hashable(x, depth):
+        # types may be recursive, so only look at the first few levels; equal types have equal unrollings
+        if isinstance(x, Type) and depth == 0:
+            return None
+        elif isinstance(x, ArrayType):
+            return (ArrayType, x._takes, Type._hashable(x._to, depth - 1))
+        elif isinstance(x, TableType):
+            return (TableType, tuple((n, Type._hashable(x._fields[n], depth - 1)) for n in sorted(x._fields)))
+        elif isinstance(x, UnionType):
+            return (UnionType, frozenset(Type._hashable(y, depth - 1) for y in x._possibilities))
+        elif isinstance(x, OptionType):
+            return (OptionType, Type._hashable(x._type, depth - 1))
+        elif callable(x):
+            return callable    # all callables are equal, see _eq2
+        else:
+            return x
+
     @staticmethod
     def _finaltype(x):
         if isinstance(x, type) and issubclass(x, (numbers.Number, numpy.generic)):
@@ -331,23 +354,22 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being (or already found to be) compared with each other
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
                 return False
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
+    __hash__ = Type.__hash__
 
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
@@ -426,10 +448,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being (or already found to be) compared with each other
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -439,8 +461,7 @@ class TableType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
+    __hash__ = Type.__hash__
 
 class UnionType(Type):
     def __init__(self, *possibilities):
@@ -450,7 +471,7 @@ class UnionType(Type):
 
     @property
     def shape(self):
-        raise TypeError("Union has no Numpy dtype")
+        return ()
 
     @property
     def dtype(self):
@@ -511,21 +532,28 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being (or already found to be) compared with each other
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
-                        return False
-                else:
-                    return True    # nothing failed in the loop over possibilities
+                return self._eqperm(self._possibilities, other._possibilities, seen, ignoremask)
             else:
                 return False
 
-    def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
+    @staticmethod
+    def _eqperm(ones, twos, seen, ignoremask):
+        # the order of possibilities doesn't matter: each one of ours must be paired with a different one of theirs
+        if len(ones) == 0:
+            return True
+        for i in range(len(twos)):
+            trial = set(seen)
+            if Type._eq2(ones[0], twos[i], trial, ignoremask=ignoremask) and UnionType._eqperm(ones[1:], twos[:i] + twos[i + 1:], trial, ignoremask):
+                seen.update(trial)
+                return True
+        return False
+
+    __hash__ = Type.__hash__
 
 class OptionType(Type):
     def __init__(self, type):
@@ -596,10 +624,10 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True    # already being (or already found to be) compared with each other
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
                 if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
                     return True
@@ -608,8 +636,7 @@ class OptionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
+    __hash__ = Type.__hash__
 
 ###############################################################################
 
-- 
2.43.0


From af21eb55f76ef2499580439af945c03c21c706f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:49 +0000
Subject: [PATCH 47/53] fix: ufuncs other than == and != on strings returned
 uninitialized memory

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 8673f04..8db50a8 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -371,7 +371,7 @@ class StringMethods(object):
                 return self.numpy.logical_not(out)
 
         else:
-            return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+            raise TypeError("strings can only be compared with == and !=, not passed to {0}".format(ufunc))
 
 def tostring(x, decoder):
     if decoder is None:
-- 
2.43.0


From 8dce48ec0bf314b5e91214225003183311c19f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 48/53] fix: JaggedArray.fromoffsets and fromlocalindex refuse
 empty offsets and a nonzero first index; setting parents revalidates

---
 awkward0/array/jagged.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 427485c..8126186 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -156,6 +156,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # If offsets is already a view, the base will not be offsets but its underlying base.
             # Make a copy to prevent that
             offsets = offsets.copy()
+        if len(offsets.shape) != 1 or len(offsets) == 0:
+            raise ValueError("offsets must be one-dimensional and non-empty")
         return cls(offsets[:-1], offsets[1:], content)
 
     @classmethod
@@ -210,6 +212,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("localindex array must be one-dimensional with the same length as content")
 
         if validate:
+            if len(index) != 0 and index[0] != 0:
+                raise ValueError("the first localindex must be zero")
             if not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all():
                 raise ValueError("every localindex that is not zero must be one greater than the previous")
 
@@ -433,6 +437,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
-- 
2.43.0


From 6bdd4c1ce70892ac4278112e00cb83336284061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 49/53] fix: replacing parts of an IndexedMaskedArray (copy,
 maskedwhen) revalidates it

---
 awkward0/array/masked.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 2b11d9d..5a59e8a 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -719,11 +719,11 @@ class IndexedMaskedArray(MaskedArray):
         out._maskedwhen = self._maskedwhen
         out._isvalid = self._isvalid
         if mask is not None:
-            out._mask = mask
+            out.mask = mask
         if content is not None:
-            out._content = content
+            out.content = content
         if maskedwhen is not None:
-            out._maskedwhen = maskedwhen
+            out.maskedwhen = maskedwhen
         return out
 
     def __awkward_serialize__(self, serializer):
@@ -769,6 +769,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
-- 
2.43.0


From fd7af7fd5f52f505f7c260e33c828084ae564377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 50/53] fix: UnionArray tags are checked before they are cast;
 union and indexed indexes need a dimension

---
 awkward0/array/indexed.py |  2 ++
 awkward0/array/union.py   | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index c643ffb..5cfd8e8 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -86,6 +86,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("index must have integer dtype")
+            if len(value.shape) == 0:
+                raise ValueError("index must have at least one dimension")
             if (value < 0).any():
                 raise ValueError("index must be a non-negative array")
         self._index = value
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index ae031c1..0a5f626 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,6 +103,15 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
+        if self.check_prop_valid:
+            if len(value.shape) == 0:
+                raise ValueError("tags must have at least one dimension")
+            if len(value) == 0:
+                raise ValueError("tags must be non-empty")
+            if not self._util_isintegertype(value.dtype.type):
+                raise TypeError("tags must have integer dtype")
+            if (value < 0).any():
+                raise ValueError("tags must be a non-negative array")
         tagsmax = value.max()
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
@@ -117,13 +126,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         else:
             raise ValueError("maximum tag must be at most {0}".format(self.numpy.iinfo(self.numpy.uint64).max))
 
-        if self.check_prop_valid:
-            if len(value) == 0:
-                raise ValueError("tags must be non-empty")
-            if not self._util_isintegertype(value.dtype.type):
-                raise TypeError("tags must have integer dtype")
-            if (value < 0).any():
-                raise ValueError("tags must be a non-negative array")
         self._tags = value
         self._isvalid = False
 
@@ -137,6 +139,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("index must have integer dtype")
+            if len(value.shape) == 0:
+                raise ValueError("index must have at least one dimension")
             if (value < 0).any():
                 raise ValueError("index must be a non-negative array")
         self._index = value
-- 
2.43.0


From 8996635397917aa44fcc50eb80e46da4bc793109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 51/53] fix: iterating over a ChunkedArray checks its chunk
 sizes

---
 awkward0/array/chunked.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 7304dcc..73d88c3 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -270,13 +270,17 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         return [chunk if size == len(chunk) else chunk[:size] for chunk, size in zip(self._chunks, self._chunksizes)]
 
+    def _validchunk(self, i):
+        if self.check_whole_valid:
+            if self._chunksizes[i] != len(self._chunks[i]):
+                raise ValueError("count[{0}] does not agree with len(chunk[{0}])".format(i))
+
     def _valid(self):
         if self.check_whole_valid:
             if len(self._chunksizes) > len(self._chunks):
                 raise ValueError("ChunkArray has more chunksizes than chunks")
-            for i, count in enumerate(self._chunksizes):
-                if count != len(self._chunks[i]):
-                    raise ValueError("count[{0}] does not agree with len(chunk[{0}])".format(i))
+            for i in range(len(self._chunksizes)):
+                self._validchunk(i)
         self._gettype({})
 
     def __str__(self):
@@ -292,9 +296,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
+        if self.check_whole_valid and len(self._chunksizes) > len(self._chunks):
+            raise ValueError("ChunkArray has more chunksizes than chunks")
         for i, chunk in enumerate(self._chunks):
             if i >= len(self._chunksizes):
                 self._chunksizes.append(len(chunk))
+            self._validchunk(i)
             for x in chunk[:self._chunksizes[i]]:
                 yield x
 
@@ -966,6 +973,9 @@ class AppendableArray(ChunkedArray):
     def __len__(self):
         return sum(self._chunksizes)
 
+    def _validchunk(self, i):
+        pass
+
     def _valid(self):
         if self.check_whole_valid:
             pass
-- 
2.43.0


From 4da82b4ce4e06e17a2bbffc1e993d2c416f874ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 52/53] fix: UnionArray.issequential (and serialization)
 accepts an index longer than the tags

---
 awkward0/array/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 0a5f626..21e7121 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -67,9 +67,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @property
     def issequential(self):
         self._valid()
+        index = self._index[:len(self._tags)]
         for tag in self.numpy.unique(self._tags):
             mask = self._tags == tag
-            if not self.numpy.array_equal(self._index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
+            if not self.numpy.array_equal(index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
                 return False
         return True
 
-- 
2.43.0


From 27982821ca9bc9b81998557cb8fe0605b3e4a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 53/53] fix: IndexedMaskedArray.fillna and flatten with a
 non-negative maskedwhen

---
 awkward0/array/masked.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 5a59e8a..11f6b3a 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -862,7 +862,7 @@ class IndexedMaskedArray(MaskedArray):
         if axis != 0:
             return self.copy(content=self._util_flatten(self._content, axis))
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
+        goodcontent = self._content[self._mask[mask]]
         content = self._util_flatten(goodcontent, axis)
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
@@ -946,11 +946,8 @@ class IndexedMaskedArray(MaskedArray):
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
+        mask = self.mask.copy()
+        mask[self.boolmask(maskedwhen=True) | (mask < -1)] = -1
         return out[mask]
 
     @classmethod
-- 
2.43.0

