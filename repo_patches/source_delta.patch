From ab9dd87aea60f7efbe3ead9e2eee82ff5f19326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:20 +0000
Subject: [PATCH 01/98] fix: bin axis put values far outside the range, or from
 narrow array types, in wrong bins

Property: C01
---
 histbook/calc/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..0a1882a 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -212,8 +212,9 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
         shift = 0
 
     def bin(values, numbins, low, high):
-        indexes = values - float(low)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        indexes = numpy.subtract(values, float(low), dtype=numpy.float64)
+        if numbins != 0:
+            numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
@@ -223,8 +224,9 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
-        out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
+            numpy.clip(indexes, -1, shift + numbins, indexes)     # large values must not wrap around in INDEXTYPE
+            out = numpy.ma.array(indexes, dtype=INDEXTYPE)
             if underflow:
                 numpy.maximum(out, 0, out)
             else:
-- 
2.43.0


From 07448ef3527135132fc2d2585b39a36166665628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 02/98] fix: intbin axis put NaN, infinite and large values, or
 values of narrow integer arrays, in wrong bins

Property: C01
---
 histbook/calc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 0a1882a..1372126 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -264,7 +264,10 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        shifted = numpy.add(values, shift - min, dtype=numpy.float64)
+        with numpy.errstate(invalid="ignore"):
+            indexes = numpy.ma.array(numpy.clip(shifted, -1, shift + 1 + max - min), dtype=INDEXTYPE)
+        indexes[numpy.isnan(shifted)] = numpy.ma.masked
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
-- 
2.43.0


From 01e1efb70df920c01930af70abbb4fa3caaf2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 03/98] fix: groupbin and split axes binned in the precision of
 narrow input arrays instead of float64

Property: C01
---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 1372126..16d9f94 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -156,9 +156,9 @@ library["histbook.groupby"] = histbook_groupby
 def histbook_groupbin(nanflow, closedlow):
     def groupbin(values, binwidth, origin):
         if origin == 0:
-            indexes = numpy.multiply(values, 1.0/float(binwidth))
+            indexes = numpy.multiply(values, 1.0/float(binwidth), dtype=numpy.float64)
         else:
-            indexes = values - float(origin)
+            indexes = numpy.subtract(values, float(origin), dtype=numpy.float64)
             numpy.multiply(indexes, 1.0/float(binwidth), indexes)
 
         if closedlow:
@@ -290,6 +290,7 @@ library["histbook.intbin__"] = histbook_intbin(False, False)
 
 def histbook_split(underflow, overflow, nanflow, closedlow):
     def split(values, edges):
+        values = numpy.asarray(values, dtype=numpy.float64)
         indexes = numpy.ma.array(numpy.digitize(values, edges), dtype=INDEXTYPE)
         if not closedlow:
             indexes[library["numpy.isin"](values, edges)] -= 1
-- 
2.43.0


From e0f2743c7e69a37c7ab94ec03c3100d42eb1d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:28 +0000
Subject: [PATCH 04/98] fix: groupbin.items and keys failed on content with a
 NaN bin

Property: C01
---
 histbook/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..24379f5 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -522,7 +522,10 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        out = [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(x for x in content if x != "NaN")]
+        if "NaN" in content:
+            out.append(IntervalPair((IntervalNaN(), content["NaN"])))
+        return out
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From 4a4d04e99fc7feab63fe34c12973a78c1f205812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:30 +0000
Subject: [PATCH 05/98] fix: 'in' and 'not in' with a set never found any value

Property: C04
---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 16d9f94..9eee235 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -44,9 +44,10 @@ library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
 try:
-    library["numpy.isin"] = numpy.isin
+    _isin = numpy.isin
 except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+    _isin = numpy.in1d
+library["numpy.isin"] = lambda values, elements: _isin(values, list(elements))   # Numpy would take a set as a single element
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From ecb22708a76126f065ae7053c851204c9e041a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:33 +0000
Subject: [PATCH 06/98] fix: negated boolean fields (not p) were filled as if
 they were not negated

Property: C04
---
 histbook/instr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..0e4b4c5 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,7 +159,10 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
+        return histbook.expr.Call("numpy.logical_not", expr.negate())
+
+    elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From 3b8915e59fc7da0ebf1d0db661e584a84599f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:07 +0000
Subject: [PATCH 07/98] fix: profiles were filled with misaligned or missing
 rows when an axis drops entries, and with NaN from entries of zero weight

Property: C02
---
 histbook/hist.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..26d15ac 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -421,15 +421,24 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight2[selection] = 0.0
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
-            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
+            if indexes is None and len(axissumx) > 0:
+                indexes = numpy.ma.zeros(len(axissumx[0]), dtype=histbook.calc.INDEXTYPE)
+            if indexes is None and weight2 is not None:
+                indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
+
+            mask = numpy.ma.nomask if indexes is None else numpy.ma.getmask(indexes)
+            if mask is not numpy.ma.nomask:
+                selection = numpy.bitwise_not(mask)
+                axissumx = [x[selection] for x in axissumx]
+                axissumx2 = [x[selection] for x in axissumx2]
                 if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
+                    weight = weight[selection]
+                    weight2 = weight2[selection]
+
+            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
+                if weight2 is not None:     # entries without weight must not contribute, not even as 0*NaN
+                    sumx = numpy.where(weight == 0, 0.0, sumx)
+                    sumx2 = numpy.where(weight == 0, 0.0, sumx2)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
 
@@ -439,13 +448,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 else:
                     numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
             else:
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
-                selection = numpy.ma.getmask(indexes)
-                if selection is not numpy.ma.nomask:
-                    selection = numpy.bitwise_not(selection)
-                    weight = weight[selection]
-                    weight2 = weight2[selection]
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes.compressed(), weight2)
 
-- 
2.43.0


From b758b6e8903ab8de9195f5404736f6b8095af0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:58 +0000
Subject: [PATCH 08/98] fix: profile errors were NaN when rounding made the
 variance of equal entries slightly negative

Property: C02
---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..07c52f3 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -608,7 +608,7 @@ class Projectable(object):
                 out[good, outindex] = content[good, prof._sumwxindex] / sumw
                 outindex += 1
                 if error:
-                    out[good, outindex] = numpy.sqrt(((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
+                    out[good, outindex] = numpy.sqrt(numpy.maximum(0.0, (content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
                     outindex += 1
 
             if recarray:
-- 
2.43.0


From ed26ae0cb80ffaf17d20fa31f036d9afb445331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:00 +0000
Subject: [PATCH 09/98] fix: the product of two sums lost the product of their
 constant terms

Property: C04
---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..aca5deb 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From 72ca86b6271b820f140cae1646943b0c8a0120f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:03 +0000
Subject: [PATCH 10/98] fix: cancelling factors of a ratio removed the wrong
 factors when more than one cancels

Property: C04
---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index aca5deb..7197b7c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From 1375d719f6ef5183867322ebb829b6e84515a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:05 +0000
Subject: [PATCH 11/98] fix: constants combined with //, %, ** or ^ raised
 KeyError

Property: C04
---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7197b7c..9061e4c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[fcn if fcn in calculate else op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From 2637bdd07ad5c5d00185a6dc11b3811919e42076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:07 +0000
Subject: [PATCH 12/98] fix: expressions with //, ^ or round could not be
 filled

Property: C04
---
 histbook/calc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 9eee235..799aba8 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,8 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
+library["xor"] = numpy.bitwise_xor
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -95,6 +97,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.around
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
-- 
2.43.0


From 9d3ab36e4c4bc761cb583b649ed62427652bb77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:10 +0000
Subject: [PATCH 13/98] fix: fmod was computed as the remainder with the sign
 of the divisor

Property: C04
---
 histbook/calc/__init__.py | 2 +-
 histbook/expr.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 799aba8..2e76445 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -95,7 +95,7 @@ library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
 library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
-library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
+library["mod"] = numpy.remainder
 library["rint"] = numpy.rint
 library["round"] = numpy.around
 library["sign"] = numpy.sign
diff --git a/histbook/expr.py b/histbook/expr.py
index 9061e4c..361d8e5 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -234,7 +234,7 @@ class Expr(object):
                 elif isinstance(node.op, ast.Mult):     fcn = "*"
                 elif isinstance(node.op, ast.Div):      fcn = "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
-                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
+                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "mod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
                 elif isinstance(node.op, ast.BitOr):    fcn = "|"
                 elif isinstance(node.op, ast.BitAnd):   fcn = "&"
@@ -375,7 +375,7 @@ _recognize(math, "exp", "exp")
 _recognize(math, "expm1", "expm1")
 _recognize(math, "factorial", "factorial")    # not in numexpr
 _recognize(math, "floor", "floor")
-_recognize(math, "fmod", "mod")
+_recognize(math, "fmod", "fmod")
 _recognize(math, "gamma", "gamma")    # not in numexpr (has lgamma and tgamma)
 _recognize(math, "hypot", "hypot")
 _recognize(math, "isinf", "isinf")
-- 
2.43.0


From 67f310e94dd2995305b3cc7058743e7c61861fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:36 +0000
Subject: [PATCH 14/98] fix: unsupported syntax was silently turned into None
 or raised unrelated errors instead of ExpressionError

Property: C04
---
 histbook/expr.py            | 28 +++++++++++++++++-----------
 histbook/util/astunparse.py |  3 +++
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 361d8e5..ea8b76f 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -32,6 +32,7 @@ import ast
 import functools
 import itertools
 import math
+import numbers
 import sys
 import types
 try:
@@ -184,6 +185,9 @@ class Expr(object):
                 if (cmp == "in" or cmp == "not in") and not (isinstance(right, Const) and isinstance(right.value, set)):
                     raise ExpressionError("comparisons 'in' and 'not in' can only be used with a set: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if cmp not in ("in", "not in") and any(isinstance(x, Const) and isinstance(x.value, set) for x in (left, right)):
+                    raise ExpressionError("sets can only be used in comparisons 'in' and 'not in': {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Relation(cmp, left, right)
 
             elif relations and isinstance(node, ast.Compare) and len(node.ops) > 1:
@@ -210,7 +214,9 @@ class Expr(object):
                 
             elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
                 content = recurse(node.operand)
-                if isinstance(content, Const):
+                if isinstance(content, Const) and not isinstance(content.value, numbers.Number):
+                    raise ExpressionError("only numbers can be used in arithmetic: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                elif isinstance(content, Const):
                     return Const(-content.value)
                 else:
                     return PlusMinus.negate(content).simplify()
@@ -220,10 +226,10 @@ class Expr(object):
 
             elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Invert):
                 content = recurse(node.operand)
-                if isinstance(content, Const):
+                if isinstance(content, Const) and isinstance(content.value, numbers.Integral):
                     return Const(~content.value)
                 else:
-                    return BitAnd.negate(content).simplify()
+                    raise ExpressionError("bitwise operators are not implemented: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
             elif isinstance(node, ast.UnaryOp):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -244,6 +250,9 @@ class Expr(object):
 
                 left = recurse(node.left)
                 right = recurse(node.right)
+                for x in left, right:
+                    if isinstance(x, Const) and not isinstance(x.value, numbers.Number):
+                        raise ExpressionError("only numbers can be used in arithmetic: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
                 if isinstance(left, Const) and isinstance(right, Const):
                     return Const(calculate[fcn if fcn in calculate else op](left.value, right.value))
@@ -294,11 +303,8 @@ class Expr(object):
                     else:
                         return PlusMinus(PlusMinus.identity, (TimesDiv(TimesDiv.identity, (), tuple((left,) * n)),), ()).simplify()
 
-                elif fcn == "&":
-                    raise NotImplementedError
-
-                elif fcn == "|":
-                    raise NotImplementedError
+                elif fcn == "&" or fcn == "|":
+                    raise ExpressionError("bitwise operators are not implemented: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
                 else:
                     return BinOp(fcn, left, right, op)
@@ -306,7 +312,7 @@ class Expr(object):
             elif isinstance(node, ast.Call):
                 fcn = Expr.recognized.get(resolve(node.func), None)
 
-                if fcn is None and node.func.id in Expr.recognized.values():
+                if fcn is None and isinstance(node.func, ast.Name) and node.func.id in Expr.recognized.values():
                     fcn = node.func.id
 
                 elif fcn is not None:
@@ -321,7 +327,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
@@ -932,7 +938,7 @@ class Logical(object):
         elif isinstance(arg, LogicalOr):
             return arg
         else:
-            raise AssertionError(arg)
+            raise ExpressionError("only comparisons and boolean fields can be combined with 'and', 'or', and 'not': {0}".format(arg))
 
     @classmethod
     def negate(op, arg):
diff --git a/histbook/util/astunparse.py b/histbook/util/astunparse.py
index 63c6b2d..19db828 100644
--- a/histbook/util/astunparse.py
+++ b/histbook/util/astunparse.py
@@ -562,6 +562,9 @@ class Unparser(object):
     def _NameConstant(self, t):
         self.write(repr(t.value))
 
+    def _Constant(self, t):
+        self.write(repr(t.value))
+
     def _Repr(self, t):
         self.write("`")
         self.dispatch(t.value)
-- 
2.43.0


From d8ed7713a952d45a6507ecb5720efb154a17ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:38 +0000
Subject: [PATCH 15/98] fix: superfluous function arguments overwrote the
 fields they named and keyword arguments were ignored

Property: C04
---
 histbook/expr.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index ea8b76f..d790b14 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -324,6 +324,11 @@ class Expr(object):
                 if fcn is None:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if len(getattr(node, "keywords", ())) > 0 or any(isinstance(x, getattr(ast, "Starred", ())) for x in node.args):
+                    raise ExpressionError("functions in expressions only take positional arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                if len(node.args) not in Expr.numargs.get(fcn, (1,)):
+                    raise ExpressionError("wrong number of arguments in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
@@ -338,6 +343,9 @@ class Expr(object):
 
     recognized = {abs: "abs", max: "max", min: "min"}
 
+    # number of arguments of recognized functions, if not 1 (a superfluous argument would be taken as an output array by Numpy)
+    numargs = {"max": (2,), "min": (2,), "fmax": (2,), "fmin": (2,), "arctan2": (2,), "copysign": (2,), "heaviside": (1, 2), "hypot": (2,), "logaddexp2": (2,), "logaddexp": (2,), "pow": (2,), "mod": (2,), "fmod": (2,), "where": (3,)}
+
 class _Placeholder(object):
     count = 0
     def __init__(self):
-- 
2.43.0


From 4aa5c04a86e359543389f5d9c6576d8542d2adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 16/98] fix: a histogram with a constant expression and a field
 could not be filled

Property: C04
---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..821c0e2 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst))
 
         return self._fields
 
-- 
2.43.0


From 3cf976e62bf5ca194895d3002bd2e261d590c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:58 +0000
Subject: [PATCH 17/98] fix: function calls and comparisons without any fields
 could not be filled

Property: C04
---
 histbook/instr.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 0e4b4c5..d97a4ed 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -114,6 +114,12 @@ class CallGraphNode(object):
         """Rename all :py:class:`Names <histbook.expr.Name>` and :py:class:`Predicates <histbook.expr.Predicate>` in the graph using ``names`` (dict) mapping old names to new names."""
         return self.goal.rename(names)
 
+def constants(fcn, *args):
+    """Broadcasts a function call without any fields, so that it is also computed once per entry."""
+    if len(args) > 0 and all(isinstance(x, histbook.expr.Const) for x in args):
+        args = (histbook.expr.BroadcastConst(None, args[0].value),) + args[1:]
+    return histbook.expr.Call(fcn, *args)
+
 def totree(expr):
     """Simplifies ``expr`` (:py:class:`Expr <histbook.expr.Expr>`) to contain only constants (:py:class:`Const <histbook.expr.Const>`), names (:py:class:`Name <histbook.expr.Name>` and :py:class:`Predicate <histbook.expr.Predicate>`), and function calls (:py:class:`Call <histbook.expr.Call>`)."""
 
@@ -166,26 +172,26 @@ def totree(expr):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-        return histbook.expr.Call(expr.fcn, *(totree(x) for x in expr.args))
+        return constants(expr.fcn, *(totree(x) for x in expr.args))
 
     elif isinstance(expr, histbook.expr.Relation):
         if expr.cmp == "==":
-            return histbook.expr.Call("numpy.equal", totree(expr.left), totree(expr.right))
+            return constants("numpy.equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "!=":
-            return histbook.expr.Call("numpy.not_equal", totree(expr.left), totree(expr.right))
+            return constants("numpy.not_equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "<":
-            return histbook.expr.Call("numpy.less", totree(expr.left), totree(expr.right))
+            return constants("numpy.less", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "<=":
-            return histbook.expr.Call("numpy.less_equal", totree(expr.left), totree(expr.right))
+            return constants("numpy.less_equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "in":
-            return histbook.expr.Call("numpy.isin", totree(expr.left), totree(expr.right))
+            return constants("numpy.isin", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "not in":
-            return histbook.expr.Call("numpy.logical_not", histbook.expr.Call("numpy.isin", totree(expr.left), totree(expr.right)))
+            return constants("numpy.logical_not", constants("numpy.isin", totree(expr.left), totree(expr.right)))
 
         else:
             raise AssertionError(repr(expr.cmp))
-- 
2.43.0


From 92b18b4e1f8ae52a94b4020019320a99771ae902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:50 +0000
Subject: [PATCH 18/98] fix: comparing string fields in a filled expression
 raised an error

Property: C04
---
 histbook/calc/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 2e76445..300d9fa 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import operator
+
 import histbook.expr
 
 import numpy
@@ -41,10 +43,10 @@ library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["xor"] = numpy.bitwise_xor
-library["numpy.equal"] = numpy.equal
-library["numpy.not_equal"] = numpy.not_equal
-library["numpy.less"] = numpy.less
-library["numpy.less_equal"] = numpy.less_equal
+library["numpy.equal"] = operator.eq            # unlike the Numpy functions, the operators also compare strings
+library["numpy.not_equal"] = operator.ne
+library["numpy.less"] = operator.lt
+library["numpy.less_equal"] = operator.le
 try:
     _isin = numpy.isin
 except AttributeError:
-- 
2.43.0


From a11c094a87549fa2585b1f19337294c9f5152904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 19/98] fix: constants were not totally ordered, so equivalent
 expressions with sets, integers and floats or NaN differed

Property: C05
---
 histbook/expr.py | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index d790b14..b238c84 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -509,21 +509,26 @@ class Const(Expr):
         return str(self.value)
 
     def __hash__(self):
-        if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
+        return hash((Const, self._order(self.value)))
+
+    @staticmethod
+    def _order(value):
+        # a key by which all values (of any type) are totally ordered, consistently with equality (except that NaN equals itself)
+        if isinstance(value, set):
+            return ("set", tuple(sorted(Const._order(x) for x in value)))
+        elif value is None:
+            return ("None", 0)
+        elif isinstance(value, numbers.Number):
+            return ("number", (1, 0.0) if value != value else (0, value))
         else:
-            value = self.value
-        return hash((Const, value))
+            return (type(value).__name__, value)
 
     def __eq__(self, other):
-        return self.__class__.__name__ == other.__class__.__name__ and self.value == other.value
+        return self.__class__.__name__ == other.__class__.__name__ and self._order(self.value) == self._order(other.value)
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.value).__name__ == type(other.value).__name__:
-                return self.value < other.value
-            else:
-                return type(self.value).__name__ < type(other.value).__name__
+            return self._order(self.value) < self._order(other.value)
         else:
             return self.__class__.__name__ < other.__class__.__name__
 
@@ -575,27 +580,14 @@ class BroadcastConst(Name):
             return self.name
 
     def __hash__(self):
-        if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
-        else:
-            value = self.value
-        return hash((Const, self.name, value))
+        return hash((Const, self.name, Const._order(self.value)))
 
     def __eq__(self, other):
-        return self.__class__.__name__ == other.__class__.__name__ and self.name == other.name and self.value == other.value
+        return self.__class__.__name__ == other.__class__.__name__ and self.name == other.name and Const._order(self.value) == Const._order(other.value)
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.name).__name__ == type(other.name).__name__:
-                if self.name == other.name:
-                    if type(self.value).__name__ == type(other.value).__name__:
-                        return self.value < other.value
-                    else:
-                        return type(self.value).__name__ < type(other.value).__name__
-                else:
-                    self.name < other.name
-            else:
-                return type(self.name).__name__ < type(other.name).__name__
+            return (Const._order(self.name), Const._order(self.value)) < (Const._order(other.name), Const._order(other.value))
         else:
             return self.__class__.__name__ < other.__class__.__name__
 
-- 
2.43.0


From 1ffb2a17880dc2b8a3c456e676e5bbda81dc72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 20/98] fix: a boolean field written as 'not not p' or 'p or p'
 was a different expression than 'p', which was rejected as a filter

Property: C05
---
 histbook/expr.py | 2 ++
 histbook/hist.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index b238c84..b5d6edb 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -965,6 +965,8 @@ class LogicalAnd(Logical, RingAlgebraMultLike):
             return Const(True)
         elif any(x == Const(False) for x in self.args):
             return Const(False)
+        elif len(self.args) == 1 and isinstance(self.args[0], Predicate) and self.args[0].positive:
+            return Name(self.args[0].value)
         elif len(self.args) == 1:
             return self.args[0]
         else:
diff --git a/histbook/hist.py b/histbook/hist.py
index 26d15ac..28c84c1 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -207,7 +207,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._filteroriginal = filter
             self._filterparsed = histbook.expr.Expr.parse(filter, defs=self._defs)
 
-            if not isinstance(self._filterparsed, (histbook.expr.LogicalOr, histbook.expr.LogicalAnd, histbook.expr.Relation, histbook.expr.Predicate)) and not (isinstance(self._filterparsed, histbook.expr.Const) and self._filterparsed.value in (False, True)):
+            if not isinstance(self._filterparsed, (histbook.expr.LogicalOr, histbook.expr.LogicalAnd, histbook.expr.Relation, histbook.expr.Predicate, histbook.expr.Name)) and not (isinstance(self._filterparsed, histbook.expr.Const) and self._filterparsed.value in (False, True)):
                 raise TypeError("filter must be a logical (boolean) expression") 
 
         if weight is None and self._filteroriginal is None:
-- 
2.43.0


From 2ee05fb0d16ba4d69596b5b81fc20c8fafda3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:25 +0000
Subject: [PATCH 21/98] fix: histograms derived from one another shared axis
 objects and overwrote each other's content positions

Property: C10
---
 histbook/hist.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 28c84c1..3dd83e7 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,12 +155,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
+            if isinstance(old, histbook.axis._nullaxis):
                 newaxis.append(old)
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
-                new = old.copy()
-                new._parsed = expr
+                new = old.copy()    # axes hold positions in this histogram's content, so they can't be shared with another histogram
+                if hasattr(old, "_parsed"):
+                    new._parsed = old._parsed
+                else:
+                    new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
                 newaxis.append(new)
 
         self._goals = set()
-- 
2.43.0


From c48ac77be051d89a18e41bf4d09d0abc103a8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:27 +0000
Subject: [PATCH 22/98] fix: attaching to a histogram modified the dict that
 was passed to its constructor or returned by tojson

Property: C14
---
 histbook/hist.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3dd83e7..49c6b39 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -139,16 +139,16 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif "systematic" in attachment:
                 raise ValueError("systematic provided as a keyword option and also found in attachment")
             else:
-                attachment["systematic"] = systematic
+                attachment = dict(attachment, systematic=systematic)
 
         if defs is None:
             self._defs = {}
         else:
-            self._defs = defs
+            self._defs = dict(defs)
         if attachment is None:
             self._attachment = {}
         else:
-            self._attachment = attachment
+            self._attachment = dict(attachment)
         self._group = []
         self._fixed = []
         self._profile = []
@@ -698,7 +698,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
@@ -707,7 +707,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
-- 
2.43.0


From d84b95e267a3da6af6fde50db9ee14d617249986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:51 +0000
Subject: [PATCH 23/98] fix: sums and products of histograms shared
 attachments, fill buffers and group contents with their operands

Property: C10
---
 histbook/hist.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 49c6b39..7e2123e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -524,14 +524,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -578,8 +577,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
-- 
2.43.0


From 9226ae98db677f760bf9ec249383afcc45bdf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:53 +0000
Subject: [PATCH 24/98] fix: multiplying a histogram that has not been filled
 raised TypeError

Property: C03
---
 histbook/hist.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 7e2123e..5d9a831 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -572,7 +572,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                return None
+            elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
                 return content * value
@@ -595,7 +597,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
-        recurse(self._content)
+        if self._content is not None:
+            recurse(self._content)
         return self
 
     @classmethod
-- 
2.43.0


From 60018b0b5f641228b26bbbb64a5551e2d25b85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:56 +0000
Subject: [PATCH 25/98] fix: adding a weighted and an unweighted histogram
 mixed up their contents instead of being rejected

Property: C14
---
 histbook/hist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 5d9a831..baa27bf 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -504,6 +504,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if (self._weightparsed is None) != (other._weightparsed is None):
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
                 return None
@@ -541,6 +544,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if (self._weightparsed is None) != (other._weightparsed is None):
+            raise TypeError("weighted histograms can only be added to other weighted histograms")
+
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
-- 
2.43.0


From 7d07180b81795e9dd990e07fdc4af03b71560024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:58 +0000
Subject: [PATCH 26/98] fix: a copyonfill copy changed with its source, and its
 source with it, unless it was filled first by its own fill method

Property: C10
---
 histbook/hist.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index baa27bf..f341004 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -85,10 +85,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def copyonfill(self):
         """Return a copy of the histogram whose content is copied if filled."""
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-        out._copyonfill = True
         out._content = self._content
+        self._copyonfill = out._copyonfill = True    # whichever is modified first has to copy
         return out
 
+    def _ownedcontent(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def clear(self):
         """Effectively reset all bins to zero."""
         self._content = None
@@ -349,10 +354,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
-
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             wait = histbook.calc.spark.fillspark(self, arrays)
@@ -379,6 +380,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._postfill(arrays, length)
 
     def _prefill(self):
+        self._ownedcontent()
         if self._content is None:
             if len(self._group) == 0:
                 self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
@@ -559,6 +561,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._ownedcontent()
+
         if other._content is None:
             pass
 
@@ -603,6 +607,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
+        self._ownedcontent()
         if self._content is not None:
             recurse(self._content)
         return self
-- 
2.43.0


From 105a33d3cf19eaf1911c0ba0afcc63604566c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:23 +0000
Subject: [PATCH 27/98] fix: adding books shared the histograms that only one
 of them has

Property: C03
---
 histbook/book.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..380e40b 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -445,10 +445,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -460,7 +460,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
-- 
2.43.0


From df3d3b393258b2761892d2b033bd300a6bb2cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:25 +0000
Subject: [PATCH 28/98] fix: filling a book without histograms raised TypeError

Property: C06
---
 histbook/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 380e40b..87d73ef 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -527,7 +527,7 @@ class Book(GenericBook, histbook.fill.Fillable):
 
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
-- 
2.43.0


From e8ec000ca5f8f4f47981715b370606cf373452a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 29/98] fix: adding an incompatible book in place changed some
 of the histograms before raising an error

Property: C14
---
 histbook/book.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 87d73ef..94612ae 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -458,7 +458,9 @@ class GenericBook(collections.MutableMapping):
         if not isinstance(other, GenericBook):
             raise TypeError("histogram books can only be added to other histogram books")
         
-        for n, x in other.iteritems():
+        self + other    # raises an exception before anything is changed if they can't be added
+
+        for n, x in other.items():
             if n not in self:
                 self[n] = x.copy()
             else:
-- 
2.43.0


From d13c840c7cdd810e9c811b08b5af2274717db9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 30/98] fix: attaching to a book modified the JSON object that
 it was restored from or converted to

Property: C14
---
 histbook/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 94612ae..91f62eb 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -182,7 +182,7 @@ class GenericBook(collections.MutableMapping):
             return node
         out = {"type": self.__class__.__name__, "content": [merge(n, x.tojson()) for n, x in self._content.items()]}
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -194,7 +194,7 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = histbook.hist.Hist.fromjson(node)
             else:
                 content[node["name"]] = GenericBook.fromjson(node)
-        return cls.fromdicts(content, obj.get("attachment", {}))
+        return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
     def __len__(self):
         return len(self._content)
-- 
2.43.0


From 0800ad7e3f0a3b2a3173ef46ba8d15dcadbf63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:40 +0000
Subject: [PATCH 31/98] fix: filling a book that has the same histogram under
 two names raised an error

Property: C06
---
 histbook/book.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 91f62eb..dc492e5 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -531,9 +531,14 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _goals(self):
         return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
+    def _fillable(self):
+        # each histogram only once, even if the book has it under several names
+        out = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))
+        return list(out.values())
+
     def _streamline(self, i, instructions):
         self._destination = []
-        for i, x in enumerate(self.itervalues(recursive=True, onlyhist=True)):
+        for i, x in enumerate(self._fillable()):
             self._destination.append(x._destination[0])
             x._streamline(i, instructions)
         return instructions
@@ -557,8 +562,8 @@ class Book(GenericBook, histbook.fill.Fillable):
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
-            threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self.itervalues(recursive=True, onlyhist=True)]
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self._fillable()]
+            for x in self._fillable():
                 x._prefill()
             for x in threads:
                 x.start()
@@ -580,10 +585,10 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            for x in self._fillable():
                 x._prefill()
             length = self._fill(arrays)
-            for x in self.itervalues(recursive=True, onlyhist=True):
+            for x in self._fillable():
                 x._postfill(arrays, length)
 
 ################################################################ for constructing fillable views
-- 
2.43.0


From 5b26887a3d70c62e4f476abfb45573ccf21ef559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:43 +0000
Subject: [PATCH 32/98] fix: filling a book after a book inside of it was
 changed missed the new histograms and wrote into the removed ones

Property: C06
---
 histbook/book.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index dc492e5..23f6fce 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -536,9 +536,18 @@ class Book(GenericBook, histbook.fill.Fillable):
         out = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))
         return list(out.values())
 
+    @property
+    def fields(self):
+        if self._fields is not None:
+            hists = self._fillable()
+            if len(hists) != len(self._streamlined) or any(x is not y for x, y in zip(hists, self._streamlined)):
+                self._fields = None      # a book in this book has changed
+        return super(Book, self).fields
+
     def _streamline(self, i, instructions):
         self._destination = []
-        for i, x in enumerate(self._fillable()):
+        self._streamlined = self._fillable()
+        for i, x in enumerate(self._streamlined):
             self._destination.append(x._destination[0])
             x._streamline(i, instructions)
         return instructions
-- 
2.43.0


From d50cf111682b4c1055fc298e789b665ebb586c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:45 +0000
Subject: [PATCH 33/98] fix: a book that was pickled or deep-copied after it
 was filled could not be filled any more

Property: C11
---
 histbook/book.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 23f6fce..430aa05 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -536,6 +536,13 @@ class Book(GenericBook, histbook.fill.Fillable):
         out = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))
         return list(out.values())
 
+    def __getstate__(self):
+        return {"_content": self._content, "_attachment": self._attachment}     # without fill instructions, which point into these histograms
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._changed()
+
     @property
     def fields(self):
         if self._fields is not None:
-- 
2.43.0


From 89e218ad8f1b30d570f1a3e7c47e824c829df63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:47 +0000
Subject: [PATCH 34/98] fix: filling a book from Spark raised NameError

Property: C20
---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 430aa05..29882de 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -32,6 +32,7 @@ import collections
 import fnmatch
 import functools
 import sys
+import threading
 
 import numpy
 
-- 
2.43.0


From 3be612e961c23da9d79544bbaa5c3161717046ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 35/98] fix: selecting group axes with three or more terms
 combined by 'or' and 'and' recursed infinitely or applied only some of them

Property: C07
---
 histbook/proj.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 07c52f3..e54fadd 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -409,17 +409,14 @@ class Projectable(object):
                         elif andslice is None:
                             andslice = slice1
                         else:
-                            slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = lambda x, slice1=slice1, slice2=andslice: slice1(x) and slice2(x)
 
                     if not good:
                         break
                     elif orslice is None:
                         orslice = andslice
                     else:
-                        slice1 = andslice
-                        slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = lambda x, slice1=andslice, slice2=orslice: slice1(x) or slice2(x)
 
                 if good:
                     return axis, axis, orslice, None, None, None
-- 
2.43.0


From 422a86dbafcd0cd50c8b6962723da14b2ad5f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:20 +0000
Subject: [PATCH 36/98] fix: a selection of a group axis shared its contents
 with the original histogram

Property: C10
---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index e54fadd..600b6ed 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -463,7 +463,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 9124c7cace88412b2b3bfe020e1ff9a66dcdb6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:22 +0000
Subject: [PATCH 37/98] fix: rejected selections of integer bins or cuts raised
 AttributeError, and the reason given mixed up the axes

Property: C07
---
 histbook/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 600b6ed..96e3be9 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -441,12 +441,12 @@ class Projectable(object):
 
         cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis = None, None, None, None, None, None
         for axis in allaxis:
-            cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis = logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis)
+            cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis = logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis)
             if cutaxis is not None:
                 break
         else:
             if wrongcmpaxis is not None:
-                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if wrongcmpaxis.closedlow else "open"))
+                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality{2})".format(repr(str(expr)), wrongcmpaxis, "; low edges are {0}".format("closed" if wrongcmpaxis.closedlow else "open") if hasattr(wrongcmpaxis, "closedlow") else ""))
             elif closestaxis is not None:
                 raise ValueError("no axis can select {0} (axis {1} has an edge at {2})".format(repr(str(expr)), closestaxis, repr(closest)))
             else:
-- 
2.43.0


From 6eefc4345f5c4d9080e3680f44ecf3fceb6738f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:50 +0000
Subject: [PATCH 38/98] fix: selecting an intbin axis up to infinity raised
 AttributeError

Property: C07
---
 histbook/axis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 24379f5..2b65174 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -920,28 +920,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
-        elif value == float("-inf") and cmp == ">":
+        elif value == float("-inf") and cmp == ">" and not self._underflow:
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
-        elif value == float("inf") and cmp == "<":
+        elif value == float("inf") and cmp == "<" and not self._overflow:
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
-- 
2.43.0


From 339c0f17630f6bd7ad8c4398e294f4acf27a52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:52 +0000
Subject: [PATCH 39/98] fix: selecting x == nan kept all bins but the nanflow
 in the axis, with only the content of the nanflow

Property: C07
---
 histbook/axis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 2b65174..44731f5 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -717,7 +717,10 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = out._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -1238,7 +1241,9 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-- 
2.43.0


From ac93699555df611201e1eb1a6b541e5e7dc86980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:55 +0000
Subject: [PATCH 40/98] fix: selecting an infinite range, or again after only a
 flow bin is left, raised OverflowError or ZeroDivisionError

Property: C07
---
 histbook/axis.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 44731f5..b7a48d8 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -725,9 +725,14 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
-            scale = float(self._numbins) / float(self._high - self._low)
-            edgenum = int(round((value - float(self._low)) * scale))
-            close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
+            if self._numbins == 0 or value <= self._low:
+                edgenum, close = 0, float(self._low)
+            elif value >= self._high:
+                edgenum, close = self._numbins, float(self._high)
+            else:
+                scale = float(self._numbins) / float(self._high - self._low)
+                edgenum = int(round((value - float(self._low)) * scale))
+                close = edgenum / scale + float(self._low)
 
             if abs(value - close) < tolerance:
                 out = self.__class__.__new__(self.__class__)
-- 
2.43.0


From 14f88719decbed9b83c5901f309013513787e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 41/98] fix: selections of groupbin axes raised TypeError if
 there is a NaN bin and kept infinite values that do not satisfy them

Property: C07
---
 histbook/axis.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index b7a48d8..8c1dbbd 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -475,20 +475,14 @@ class groupbin(GroupAxis, _RebinFactor):
         if value == float("-inf") and cmp == ">=":
             return self, lambda x: x != "NaN", None, False
 
-        elif value == float("-inf") and cmp == ">":
-            return self, lambda x: x != "NaN", None, False
-
-        elif value == float("-inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+        elif value == float("-inf") and (cmp == ">" or cmp == "!="):
+            return self, lambda x: x != "NaN" and x != float("-inf"), None, False
 
         elif value == float("inf") and cmp == "<=":
             return self, lambda x: x != "NaN", None, False
 
-        elif value == float("inf") and cmp == "<":
-            return self, lambda x: x != "NaN", None, False
-
-        elif value == float("inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+        elif value == float("inf") and (cmp == "<" or cmp == "!="):
+            return self, lambda x: x != "NaN" and x != float("inf"), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
@@ -496,17 +490,17 @@ class groupbin(GroupAxis, _RebinFactor):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             return self, lambda x: x == "NaN", None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and not numpy.isinf(value):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
-- 
2.43.0


From 128ce2f94b1b0b91214b8597805eb40618da3a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:54 +0000
Subject: [PATCH 42/98] fix: a cut on an expression with 'and' could not be
 selected

Property: C07
---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 96e3be9..cfc1a1b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -304,7 +304,7 @@ class Projectable(object):
         """
         expr = histbook.expr.Expr.parse(expr, defs=self._defs)
 
-        if isinstance(expr, histbook.expr.LogicalAnd):
+        if isinstance(expr, histbook.expr.LogicalAnd) and not any(isinstance(x, histbook.axis.cut) and expr == x._parsed for x in self._fixed):
             out = None
             for arg in expr.args:
                 if out is None:
-- 
2.43.0


From 160b93c8fac5cd73ce79e9989c363ddaa0cb3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:57 +0000
Subject: [PATCH 43/98] fix: drop keeps both sums of the remaining profiles and
 the squared weights of filtered histograms

Property: C08
---
 histbook/proj.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index cfc1a1b..ffd5506 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -201,13 +201,14 @@ class Projectable(object):
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
-- 
2.43.0


From a1317b438254a72226bb5b62211f46ac28ce7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:00 +0000
Subject: [PATCH 44/98] fix: drop accepts index positions as documented

Property: C08
---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index ffd5506..c1003cb 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -194,7 +194,7 @@ class Projectable(object):
         """
         if len(profile) == 0:
             raise IndexError("no profile axis given")
-        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
+        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis[x] if isinstance(x, (numbers.Integral, numpy.integer)) else self.axis.profile(x) for x in profile]
         for prof in profile:
             if prof not in self._profile:
                 raise IndexError("no such profile axis: {0}".format(prof))
-- 
2.43.0


From 7f3f14e88ed6af49272b85450ce7eec0bbb256de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:02 +0000
Subject: [PATCH 45/98] fix: project over any number of group keys, including
 none and odd numbers

Property: C08
---
 histbook/proj.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index c1003cb..e16660f 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -258,25 +258,23 @@ class Projectable(object):
             else:
                 return left + right
 
-        def addall(values):
-            assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+        def addall(values, j):
+            if len(values) == 0:
+                if any(x in axis for x in self._group[j + 1:]):
+                    return {}
+                else:
+                    return projarray(numpy.zeros(self._shape, dtype=self.COUNTTYPE))
+            elif len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
+                return addany(addall(values[:len(values) // 2], j), addall(values[len(values) // 2:], j))
             
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
                 else:
-                    return addall([projcontent(j + 1, x) for x in content.values()])
+                    return addall([projcontent(j + 1, x) for x in content.values()], j)
             else:
                 return projarray(content)
 
-- 
2.43.0


From 8f404f186876fa2b31773d71fab919d4fb162d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 46/98] fix: rebinby combines bins by the given factor

Property: C09
---
 histbook/axis.py | 4 ++--
 histbook/proj.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 8c1dbbd..7dc648c 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -914,7 +914,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1213,7 +1213,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self._edges[0:-1:factor] + self._edges[-1:], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index e16660f..f475bac 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -169,9 +169,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From e0fa1bf6833534ba277eaab740b9a1f5ced5bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:32 +0000
Subject: [PATCH 47/98] fix: rebinby on groupbin axes merges neighbouring bins
 into wider ones

Property: C09
---
 histbook/axis.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 7dc648c..212df82 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,33 +430,33 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def add(one, two):
+            if isinstance(one, dict):
+                out = dict(one)
+                for n, x in two.items():
+                    out[n] = add(one[n], x) if n in one else x
+                return out
+            else:
+                return one + two
+
         def recurse(j, content):
             if j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
-                        out[n] = recurse(j + 1, x)
+                    if n != "NaN" and not numpy.isinf(n):
+                        oldindex = int(round((n - float(self._origin)) / float(self._binwidth)))    # n is the low edge of a bin
+                        n = (oldindex // int(factor)) * float(newaxis._binwidth) + float(newaxis._origin)
 
+                    if n not in out:
+                        out[n] = recurse(j + 1, x)
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                        out[n] = add(out[n], recurse(j + 1, x))
 
                 return out
                         
@@ -464,7 +464,7 @@ class groupbin(GroupAxis, _RebinFactor):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
-- 
2.43.0


From d17e97b412f4be70fb6da2dfe41122fce4a5e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:35 +0000
Subject: [PATCH 48/98] fix: rebin and rebinby accept index positions as
 documented

Property: C09
---
 histbook/proj.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index f475bac..a0c9e5f 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,6 +110,9 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -154,6 +157,9 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
-- 
2.43.0


From 6c1368545707dd4a5f4bff122000cb1b06dc34d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:38 +0000
Subject: [PATCH 49/98] fix: rebin accepts any iterable of edges as documented

Property: C09
---
 histbook/axis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/axis.py b/histbook/axis.py
index 212df82..4deeb72 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1149,6 +1149,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         return hash((self.__class__, self._expr, self._edges, self._underflow, self._overflow, self._nanflow, self._closedlow))
 
     def _rebinsplit(self, edges, content, index):
+        edges = list(edges)
         for x in edges:
             if not x in self._edges:
                 raise ValueError("cannot rebin: edge {0} is not in the original edges {1}".format(x, self._edges))
-- 
2.43.0


From f081e43cd5507760e1b9338989c04f5823d4dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 50/98] fix: group checks weights in any order of arguments and
 keeps squared weights of filtered histograms

Property: C13
---
 histbook/hist.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index f341004..e9588e1 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -645,15 +645,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
-        for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
-                raise TypeError("histograms can only be grouped with the same weight specifications")
-            elif weight != x._weightoriginal:
-                weight = 1.0
-                
+        if any((x._weightparsed is None) != (hist._weightparsed is None) for x in hists.values()):
+            raise TypeError("weighted histograms can only be grouped with other weighted histograms")
+
+        weight = hist._weightoriginal
+        if hist._weightparsed is not None and (weight is None or any(x._weightoriginal != weight for x in hists.values())):
+            weight = 1.0
+
         defs = {}
         for x in hists.values():
             defs.update(x._defs)
-- 
2.43.0


From 70ca3d72172e11d2664706e45c79c8fd857ec929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:12 +0000
Subject: [PATCH 51/98] fix: unfilled histograms can be grouped

Property: C13
---
 histbook/hist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index e9588e1..865cd32 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -659,7 +659,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = cls._copycontent(x._content)
+            x = x.copy()
+            x._prefill()
+            out._content[n] = x._content
         return out
 
     def togroup(**hists):
-- 
2.43.0


From fb3eff964bfd889ad2e5337d7f32f15b4361f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:14 +0000
Subject: [PATCH 52/98] fix: togroup adds histograms to a group

Property: C13
---
 histbook/hist.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 865cd32..3f190a5 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -664,7 +664,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             out._content[n] = x._content
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -684,6 +684,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if (self._weightparsed is None) != (x._weightparsed is None):
+                raise TypeError("weighted histograms can only be grouped with other weighted histograms")
 
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
@@ -697,11 +699,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._prefill()
         for n, x in hists.items():
-            if n in self._content:
-                add(self._content[n], other._content)
-            else:
-                self._content[n] = Hist._copycontent(other._content)
+            x = x.copy()
+            x._prefill()
+            add(self._content, {n: x._content})
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From d3080683a74174e1c1e33938352299e32dbc52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:17 +0000
Subject: [PATCH 53/98] fix: grouped books keep the order of their names

Property: C13
---
 histbook/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 29882de..a66a426 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -501,7 +501,7 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("only histogram books can be grouped with other books")
 
         content = collections.OrderedDict()
-        for name in functools.reduce(set.union, (set(book.iterkeys()) for book in books.values())):
+        for name in collections.OrderedDict((n, None) for book in books.values() for n in book.iterkeys()):
             nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book))
             if len(nestcls) != 1:
                 raise TypeError("books at {0} have different types: {1}".format(repr(name), ", ".join(repr(x) for x in nestcls)))
-- 
2.43.0


From b3c22c548411374c72793404fe0a1d2cd8230ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:25 +0000
Subject: [PATCH 54/98] fix: table and fraction leave an unfilled histogram as
 it is

Property: C12
---
 histbook/proj.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index a0c9e5f..45fcbaa 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -525,8 +525,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
         profileindex = []
         for prof in profile:
@@ -624,7 +622,11 @@ class Projectable(object):
             else:
                 return handlearray(content)
 
-        out = handle(self._content)
+        content = self._content
+        if content is None:
+            content = numpy.zeros(self._shape, dtype=self.COUNTTYPE) if len(self._group) == 0 else {}
+
+        out = handle(content)
 
         if showcolumns:
             return out, columns
@@ -672,8 +674,6 @@ class Projectable(object):
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
 
-        self._prefill()
-
         cut = [x if isinstance(x, histbook.axis.Axis) else self.axis.cut(x) for x in cut]
 
         cutindex = []
@@ -684,7 +684,9 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.copy()
+        noprofiles._prefill()
+        noprofiles = noprofiles.drop(*self._profile)
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From 422903b6541d5dd935d33de701be6232205c37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:27 +0000
Subject: [PATCH 55/98] fix: fraction works on histograms without profiles

Property: C12
---
 histbook/proj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 45fcbaa..e895037 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -686,7 +686,8 @@ class Projectable(object):
 
         noprofiles = self.copy()
         noprofiles._prefill()
-        noprofiles = noprofiles.drop(*self._profile)
+        if len(self._profile) != 0:
+            noprofiles = noprofiles.drop(*self._profile)
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From 077988a7731e67d2ba0fe606900c22dc2c884a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:30 +0000
Subject: [PATCH 56/98] fix: convert confidence levels to sigmas without scipy

Property: C12
---
 histbook/proj.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index e895037..c3af74f 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -720,7 +720,13 @@ class Projectable(object):
                 a7 = math.pi**3 * 127.0/40320.0
                 a9 = math.pi**4 * 4369.0/5806080.0
                 a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                x = 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                for i in range(100):     # the series is only a starting point for Newton's method
+                    step = (math.erf(x) - level) / (2.0/math.sqrt(math.pi)*math.exp(-x**2))
+                    x -= step
+                    if abs(step) < 1e-15:
+                        break
+                return x * math.sqrt(2)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
-- 
2.43.0


From 0afa4198c90b723e02ed63b145857331aa69454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:33 +0000
Subject: [PATCH 57/98] fix: normalized tables apply the widths of a split axis
 to that axis

Property: C12
---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index c3af74f..bef2387 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -558,7 +558,7 @@ class Projectable(object):
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
-                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)]).reshape((-1,) + (1,) * (len(self._fixed) - i - 1))
                 else:
                     binwidth = axis.binwidth
 
-- 
2.43.0


From a5c2ea67ea2eb2cf037584c09d592f9dbb1e7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:36 +0000
Subject: [PATCH 58/98] fix: histograms with group axes can be normalized

Property: C12
---
 histbook/proj.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index bef2387..ab6d5dc 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -554,7 +554,7 @@ class Projectable(object):
             for axis in self._group:
                 if isinstance(axis, histbook.axis.groupbin):
                     groupbins *= axis.binwidth
-            binwidths[tuple(axis.finiteslice for axis in self._group + self._fixed)] = groupbins
+            binwidths[tuple(axis.finiteslice for axis in self._fixed)] = groupbins
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
@@ -586,7 +586,6 @@ class Projectable(object):
 
                 if normalized:
                     shaped = binwidths.reshape(content.shape[:-1])
-                    total = (out[:, countindex] / shaped).sum()
                     correction = total * shaped
                     out[:, countindex] /= correction
                     if error:
@@ -626,6 +625,14 @@ class Projectable(object):
         if content is None:
             content = numpy.zeros(self._shape, dtype=self.COUNTTYPE) if len(self._group) == 0 else {}
 
+        if normalized:
+            def density(content):
+                if isinstance(content, dict):
+                    return sum(density(x) for x in content.values())
+                else:
+                    return (content[..., self._sumwindex] / binwidths).sum()
+            total = density(content)
+
         out = handle(content)
 
         if showcolumns:
-- 
2.43.0


From c5ee0b6877599755b0283d4fcacbe87978f9731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 59/98] fix: numeric group keys survive JSON text

Property: C11
---
 histbook/hist.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3f190a5..81d3c50 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -716,7 +716,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
-                    return dict((n, recurse(x)) for n, x in node.items())
+                    if all(isinstance(n, histbook.util.string) for n in node):
+                        return dict((n, recurse(x)) for n, x in node.items())
+                    else:        # JSON objects can only have string keys
+                        return [[n.item() if isinstance(n, numpy.generic) else n, recurse(x)] for n, x in node.items()]
                 else:
                     return node.tolist()
             out["content"] = recurse(self._content)
@@ -727,16 +730,18 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def recurse(j, node):
             if node is None:
                 return None
             elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+                return dict((n, recurse(j + 1, x)) for n, x in node.items())
+            elif j < len(out._group):
+                return dict((n, recurse(j + 1, x)) for n, x in node)
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(0, obj.get("content", None))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From 5b1e25c63693db2cf5aee7dbb6c20386d580622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:28 +0000
Subject: [PATCH 60/98] fix: Numpy numbers as weights survive JSON text

Property: C11
---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 81d3c50..7c2e5dc 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -708,7 +708,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
         if self._weightoriginal is not None:
-            out["weight"] = self._weightoriginal
+            out["weight"] = self._weightoriginal.item() if isinstance(self._weightoriginal, numpy.generic) else self._weightoriginal
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-- 
2.43.0


From aa9a16cb01bdf5d95cdff6efe47f503afea55f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:30 +0000
Subject: [PATCH 61/98] fix: systematic vectors survive JSON text as tuples

Property: C11
---
 histbook/hist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 7c2e5dc..6c402bd 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -154,6 +154,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._attachment = {}
         else:
             self._attachment = dict(attachment)
+        if isinstance(self._attachment.get("systematic", None), list):
+            self._attachment["systematic"] = tuple(self._attachment["systematic"])    # JSON doesn't have tuples
         self._group = []
         self._fixed = []
         self._profile = []
-- 
2.43.0


From 5addfbc41792ca3227fad3116a6a2b87135b9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:33 +0000
Subject: [PATCH 62/98] fix: groupkeys of an unfilled histogram is empty

Property: C12
---
 histbook/hist.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 6c402bd..b65815c 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -806,11 +806,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             if x == axis:
                 break
         else:
-            raise IndexError("no such groupby/groupbin axis: {0}".format(x))
+            raise IndexError("no such groupby/groupbin axis: {0}".format(axis))
 
         out = set()
         def recurse(j, content):
-            if i == j:
+            if content is None:
+                pass
+            elif i == j:
                 out.update(content.keys())
             else:
                 for x in content.values():
-- 
2.43.0


From 2a862f65a059bf38a7eb39059cf3ee037e00dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:43 +0000
Subject: [PATCH 63/98] fix: deleting by wildcard only deletes what matches

Property: C15
---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index a66a426..fa5288b 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -283,7 +283,8 @@ class GenericBook(collections.MutableMapping):
 
         if "*" in name or "?" in name or "[" in name:
             for n in self.allkeys():
-                self._del(n, "")
+                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:    # may already be gone with the book it was in
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From 049684b207cd6b486815211055050bbc3af4b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:46 +0000
Subject: [PATCH 64/98] fix: a wildcard is only in a book if it matches
 something

Property: C15
---
 histbook/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index fa5288b..0c7a962 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -202,11 +202,11 @@ class GenericBook(collections.MutableMapping):
 
     def __contains__(self, name):
         try:
-            self[name]
+            out = self[name]
         except KeyError:
             return False
         else:
-            return True
+            return not isinstance(out, list) or len(out) != 0
 
     def _get(self, name):
         attempt = self._content.get(name, None)
-- 
2.43.0


From aa0d407f153900aebe52992f8801f33b2881f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 65/98] fix: histograms and books are not compatible

Property: C15
---
 histbook/book.py | 2 +-
 histbook/hist.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 0c7a962..f5cf7fd 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -152,7 +152,7 @@ class GenericBook(collections.MutableMapping):
 
     def compatible(self, other):
         """Returns True if the books have the same set of histogram names and those histograms with matching names are compatible."""
-        return set(self.iterkeys()) == set(other.iterkeys()) and all(self[n].compatible(other[n]) for n in self.iterkeys())
+        return isinstance(other, GenericBook) and set(self.iterkeys()) == set(other.iterkeys()) and all(self[n].compatible(other[n]) for n in self.iterkeys())
 
     def assertcompatible(self):
         """Raises ``ValueError`` if not all books have the same set of histogram names and those histograms with matching names are compatible."""
diff --git a/histbook/hist.py b/histbook/hist.py
index b65815c..7580718 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -773,7 +773,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def compatible(self, other):
         """Returns True if the histograms have the same non-profile axis types and binning, regardless of the expressions used to compute them."""
-        return len(self._group) == len(other._group) and len(self._fixed) == len(other._fixed) and all(y.compatible(z) for y, z in zip(self._group + self._fixed, other._group + other._fixed))
+        return isinstance(other, Hist) and len(self._group) == len(other._group) and len(self._fixed) == len(other._fixed) and all(y.compatible(z) for y, z in zip(self._group + self._fixed, other._group + other._fixed))
 
     def __getitem__(self, where):
         if not isinstance(where, tuple):
-- 
2.43.0


From b68389a5a4fd69e605ec977576fd7dd9c216d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:51 +0000
Subject: [PATCH 66/98] fix: a SystematicsBook can be filled

Property: C19
---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index f5cf7fd..efd6c9d 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -662,6 +662,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 8404bc4e5804a022a45e526e735388c1cacce359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:53 +0000
Subject: [PATCH 67/98] fix: a SystematicsBook does not keep what it rejected

Property: C19
---
 histbook/book.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index efd6c9d..83676b3 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -661,6 +661,21 @@ class SystematicsBook(Book):
     def __str__(self, indent=",\n      ", first=True):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
+    def _orundo(self, action, *args):
+        backup = [(x, x._content.copy()) for x in [self] + self.allvalues() if isinstance(x, GenericBook)]
+        try:
+            action(*args)
+        except Exception:
+            for x, content in backup:
+                x._content = content
+            raise
+
+    def _set(self, name, value, path):
+        self._orundo(super(SystematicsBook, self)._set, name, value, path)
+
+    def _del(self, name, path):
+        self._orundo(super(SystematicsBook, self)._del, name, path)
+
     def _changed(self):
         super(SystematicsBook, self)._changed()
         self.assertcompatible()
-- 
2.43.0


From a9f021e286acbb8faabe29f2932fc7c8ad6360a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:55 +0000
Subject: [PATCH 68/98] fix: a failed fill leaves the histogram as it was

Property: C14
---
 histbook/book.py | 2 +-
 histbook/hist.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 83676b3..30860e9 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -603,9 +603,9 @@ class Book(GenericBook, histbook.fill.Fillable):
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
+            length = self._fill(arrays)    # may raise an exception before any histogram is changed
             for x in self._fillable():
                 x._prefill()
-            length = self._fill(arrays)
             for x in self._fillable():
                 x._postfill(arrays, length)
 
diff --git a/histbook/hist.py b/histbook/hist.py
index 7580718..babc69d 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -377,8 +377,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 arrays = histbook.util.ChainedDict(arrays, more)
 
+            length = self._fill(arrays)    # may raise an exception before the histogram is changed
             self._prefill()
-            length = self._fill(arrays)
             self._postfill(arrays, length)
 
     def _prefill(self):
-- 
2.43.0


From 21b51b1d22d88ffe818934f94584df138fca4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 69/98] fix: looking into an unfilled histogram does not change
 it

Property: C14
---
 histbook/hist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index babc69d..41d5802 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -778,8 +778,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def __getitem__(self, where):
         if not isinstance(where, tuple):
             where = (where,)
-        self._prefill()
         out = self._content
+        if out is None:
+            out = numpy.zeros(self._shape, dtype=self.COUNTTYPE) if len(self._group) == 0 else {}
         for i in where:
             out = out[i]
         return out
-- 
2.43.0


From cafbbd8c7eeb6b32da564051af0355c52a8d876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:16 +0000
Subject: [PATCH 70/98] fix: refuse arrays that are not one-dimensional before
 anything is filled

Property: C14
---
 histbook/fill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/fill.py b/histbook/fill.py
index 821c0e2..63dd90a 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -140,6 +140,9 @@ class Fillable(object):
                 if array.shape == ():
                     array = full(length, array)
 
+                if len(array.shape) != 1:
+                    raise ValueError("array {0} has shape {1} but all arrays must be one-dimensional".format(repr(str(instruction.extern)), array.shape))
+
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
 
-- 
2.43.0


From e133b4801d1414c35c51ae4edbf91995c16c3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:25 +0000
Subject: [PATCH 71/98] fix: a histogram with NaN in its contents equals its
 copy

Property: C11
---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 41d5802..4da1a10 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -762,7 +762,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif isinstance(one, dict) and isinstance(two, dict):
                 return set(one.keys()) == set(two.keys()) and all(recurse(one[n], two[n]) for n in one)
             elif isinstance(one, numpy.ndarray) and isinstance(two, numpy.ndarray):
-                return numpy.array_equal(one, two)
+                return one.shape == two.shape and bool(numpy.all((one == two) | (numpy.isnan(one) & numpy.isnan(two))))
             else:
                 return False
 
-- 
2.43.0


From 2f8bd4b0e69aabdd0c0e96f94184704f9be69277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 72/98] fix: restored histograms do not share contents with
 each other

Property: C19
---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 4da1a10..7f6ec59 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -753,7 +753,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def __setstate__(self, state):
         packed, weight, filter, defs, content, attachment = state
         self.__init__(*[histbook.axis.Axis._unpack(x) for x in packed], weight=weight, filter=filter, defs=defs, attachment=attachment)
-        self._content = content
+        self._content = Hist._copycontent(content)    # histograms pickled together may have shared it (copyonfill)
 
     def __eq__(self, other):
         def recurse(one, two):
-- 
2.43.0


From 1aeb8c7fae73ea7add46ae9c2f7575710d7628e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:11 +0000
Subject: [PATCH 73/98] fix: squares of integer profiles and weights do not
 overflow

Property: C02
---
 histbook/axis.py          | 2 +-
 histbook/calc/__init__.py | 1 +
 histbook/hist.py          | 6 +++---
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 4deeb72..2bcd58b 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1472,7 +1472,7 @@ class profile(ProfileAxis):
         if isinstance(parsed, histbook.expr.Const):
             parsed = histbook.expr.BroadcastConst(None, parsed.value)
         return [histbook.instr.CallGraphGoal(parsed),
-                histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", parsed, parsed))]
+                histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", parsed))]
 
     def __eq__(self, other):
         return self.__class__ is other.__class__ and self._expr == other._expr
diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 300d9fa..6e9a7bc 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -40,6 +40,7 @@ library = {}
 library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
+library["histbook.square"] = lambda values: numpy.multiply(values, values, dtype=numpy.float64)    # squares of integers could overflow
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["xor"] = numpy.bitwise_xor
diff --git a/histbook/hist.py b/histbook/hist.py
index 7f6ec59..9080379 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -231,7 +231,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         elif self._filteroriginal is None:
             self._weightoriginal = weight
@@ -243,7 +243,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         else:
             self._weightoriginal = weight
@@ -254,7 +254,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         self._group = tuple(self._group)
         self._fixed = tuple(self._fixed)
-- 
2.43.0


From 1dd74fd7e707f90c994f8d28d95fefbc7e1d2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:34 +0000
Subject: [PATCH 74/98] fix: keys that can't be hashed are rejected before
 anything is filled

Property: C14
---
 histbook/calc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 6e9a7bc..72217ec 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -155,6 +155,8 @@ library["where"] = lambda condition, yes, no: numpy.where(condition, yes, no)
 
 def histbook_groupby(values):
     uniques, inverse = numpy.unique(values, return_inverse=True)
+    for x in uniques:
+        hash(x)           # keys that can't be hashed have to be rejected before anything is filled
     inverse = inverse.astype(INDEXTYPE)
     return uniques, inverse
 
-- 
2.43.0


From 0d7ada1707d28fd8bb62b06f2f3f2935a50dfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:37 +0000
Subject: [PATCH 75/98] fix: arithmetic with narrow and unsigned integer arrays
 does not overflow

Property: C04
---
 histbook/fill.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/histbook/fill.py b/histbook/fill.py
index 63dd90a..bc1b650 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -146,6 +146,14 @@ class Fillable(object):
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
 
+                # arithmetic with narrow or unsigned types would overflow
+                if array.dtype.kind == "f" and array.dtype.itemsize < 8:
+                    array = array.astype(numpy.float64)
+                elif (array.dtype.kind == "i" or array.dtype.kind == "u") and array.dtype.itemsize < 8:
+                    array = array.astype(numpy.int64)
+                elif array.dtype.kind == "u" and (array <= numpy.iinfo(numpy.int64).max).all():
+                    array = array.astype(numpy.int64)
+
                 symbols[instruction.name] = array
 
             elif isinstance(instruction, histbook.instr.Assign):
-- 
2.43.0


From 86918e5a3221a03bbedc8559cd9ea16ce3325086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 76/98] fix: heatmaps with an integer y axis can be drawn

Property: C17
---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..eaed06f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -834,7 +834,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
-- 
2.43.0


From 00cea5edb31736dc7a9541c3790a11640b0b0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:50 +0000
Subject: [PATCH 77/98] fix: error bars of plots combined with beside, below or
 grid only show their own data

Property: C17
---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index eaed06f..05c502f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -1040,7 +1040,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1081,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1123,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From 2d1e33d81c7b4f1f7689ff8b1dce0872677a7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:52 +0000
Subject: [PATCH 78/98] fix: error bars on categorical and bar axes are placed
 by label

Property: C17
---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 05c502f..8dc7fa1 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -707,7 +707,7 @@ class Plotable1d(PlotableFrontends):
             else:
                 errx = varname + str(axis.index(self._last.axis))
 
-            encoding2 = {"x": {"field": errx, "type": "quantitative"},
+            encoding2 = {"x": {"field": errx, "type": xtype},
                          "y": {"field": "error-down", "type": "quantitative"},
                          "y2": {"field": "error-up", "type": "quantitative"}}
 
-- 
2.43.0


From a8eca8478dfee13853fea68b13204dc373b28b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:54 +0000
Subject: [PATCH 79/98] fix: color domains and stacking order name the labels
 shown in the data, also for integer, cut and empty axes

Property: C17
---
 histbook/vega.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8dc7fa1..392e80b 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -36,6 +36,12 @@ import numpy
 
 import histbook.axis
 
+def _label(key):
+    if isinstance(key, (bool, numpy.bool_)):
+        return "pass" if key else "fail"
+    else:
+        return str(key)
+
 class Channel(object):
     """Abstract class for graphical channels in a Vega-Lite plot."""
 
@@ -541,7 +547,7 @@ class Plotable1d(PlotableFrontends):
         lastj = projectedorder.index(self._last.axis)
 
         data = []
-        domains = {}
+        domains = dict((x, set()) for x in projectedorder)
         if error and baseline:
             shifts = {}
 
@@ -558,12 +564,10 @@ class Plotable1d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
-                domains[axis].update(axis.keys(content))
-
+                domain = domains[axis]
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
@@ -587,11 +591,8 @@ class Plotable1d(PlotableFrontends):
                         else:
                             recurse(j + 1, x, row + (str(n),), base)
 
-                    elif isinstance(n, (bool, numpy.bool_, numpy.bool)):
-                        recurse(j + 1, x, row + ("pass" if n else "fail",), base)
-
                     else:
-                        recurse(j + 1, x, row + (str(n),), base)
+                        recurse(j + 1, x, row + (_label(n),), base)
 
         recurse(0, table, (), False)
         if error and baseline:
@@ -647,18 +648,18 @@ class Plotable1d(PlotableFrontends):
             elif len(values) > 1:
                 return "if(datum.{0} === {1}, {2}, {3})".format(var, repr(values[0]), i, makeorder(i + 1, var, values[1:]))
             else:
-                raise AssertionError(values)
+                return repr(i)
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [_label(x) for x in sorted(domains[channel.axis])]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [_label(x) for x in sorted(domains[channel.axis])]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
@@ -780,7 +781,7 @@ class Plotable2d(PlotableFrontends):
         lastj = (projectedorder.index(self._last.xaxis), projectedorder.index(self._last.yaxis))
         
         data = []
-        domains = {}
+        domains = dict((x, set()) for x in projectedorder)
 
         def recurse(j, content, row):
             if j == len(projectedorder):
@@ -792,12 +793,10 @@ class Plotable2d(PlotableFrontends):
 
             else:
                 axis = projectedorder[j]
-                if axis not in domains:
-                    domains[axis] = set()
-                domains[axis].update(axis.keys(content))
-
+                domain = domains[axis]
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
@@ -807,11 +806,8 @@ class Plotable2d(PlotableFrontends):
                         else:
                             recurse(j + 1, x, row + (str(n),))
 
-                    elif isinstance(n, (bool, numpy.bool_, numpy.bool)):
-                        recurse(j + 1, x, row + ("pass" if n else "fail",))
-
                     else:
-                        recurse(j + 1, x, row + (str(n),))
+                        recurse(j + 1, x, row + (_label(n),))
 
         recurse(0, table, ())
         return projectedorder, data, domains
-- 
2.43.0


From 7f1ab5860795ec34ed51ca4af6c4c1ec22dad001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:57 +0000
Subject: [PATCH 80/98] fix: the last bin of an axis ends exactly at its high
 edge, so step and area plots are closed

Property: C17
---
 histbook/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/axis.py b/histbook/axis.py
index 2bcd58b..c530cce 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -774,6 +774,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
     def keys(self, content=None):
         """Returns key labels in the order of the bin content, to index the content."""
         def i2x(i):
+            if i == self._numbins:
+                return float(self._high)
             return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
-- 
2.43.0


From 2f94d12a2ad0c0a37d5c045cb1b2c0460646a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 81/98] fix: pandas export of NaN groups and of fractions over
 groups only

Property: C18
---
 histbook/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..f9f73cc 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -73,7 +73,7 @@ class Exportable(object):
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if content is not None:
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
@@ -89,7 +89,7 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
+                    for n in sorted(content, key=lambda n: (n == "NaN", n)):
                         if n == "NaN":
                             index(j + 1, content[n], key + ("{NaN}",))
                         else:
-- 
2.43.0


From 1b513358a82d85bfaaac9a3b5aeb636bf439f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:02 +0000
Subject: [PATCH 82/98] fix: pandas export of a histogram without binned axes

Property: C18
---
 histbook/export.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/export.py b/histbook/export.py
index f9f73cc..d96cab7 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -151,6 +151,9 @@ class Exportable(object):
                                 columns=columns)
         else:
             arrays = numpy.concatenate(arrays)
+            if len(allaxis) == 0:
+                return pd.DataFrame(columns=arrays.dtype.names,
+                                    data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(1, -1))
             return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
                                 columns=arrays.dtype.names,
                                 data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(len(keys[0]), -1))
-- 
2.43.0


From 624e6afec53b81264e313b5afdbeafe8d57133d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:05 +0000
Subject: [PATCH 83/98] fix: number of entries of exported ROOT profiles

Property: C18
---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index d96cab7..f7083a0 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -282,13 +282,13 @@ class Exportable(object):
                 errors[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[3]][: (-1 if xaxis.nanflow else None)]
 
                 # you have to do crazy things to set TProfile bins by hand
-                out.SetEntries(entries.sum())
                 rootcontents = contents * entries
                 rooterrors = numpy.sqrt(((errors**2 * entries) + contents**2) * entries)
                 for i in range(xaxis.numbins + 2):
                     out.SetBinEntries(i, entries[i])
                     out.SetBinContent(i, rootcontents[i])
                     out.SetBinError(i, rooterrors[i])
+                out.SetEntries(entries.sum())      # after SetBinContent, which increments it
 
         elif len(binaxis) == 2:
             if profile is None:
-- 
2.43.0


From 5debea8c5ac809cec24d9087fd85773eaa772e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:07 +0000
Subject: [PATCH 84/98] fix: ROOT export keeps the bin edges of split and
 integer axes

Property: C18
---
 histbook/export.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index f7083a0..7bb780b 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -255,9 +255,15 @@ class Exportable(object):
 
         elif len(binaxis) == 1:
             xaxis = binaxis[0]
+            if isinstance(xaxis, histbook.axis.intbin):
+                xaxis = xaxis.bin()
+            if isinstance(xaxis, histbook.axis.split):
+                binning = (xaxis.numbins, numpy.array(xaxis.edges, dtype=numpy.float64))
+            else:
+                binning = (xaxis.numbins, xaxis.low, xaxis.high)
 
             if profile is None:
-                out = ROOT.TH1D(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TH1D(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["count()"][: (-1 if xaxis.nanflow else None)]
@@ -270,7 +276,7 @@ class Exportable(object):
                     out.SetError(errors)
 
             else:
-                out = ROOT.TProfile(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TProfile(name, title, *binning)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[0]][: (-1 if xaxis.nanflow else None)]
-- 
2.43.0


From 04da4f53ac1a1732212e4d084b5de78f1f996586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 85/98] fix: a cut that compares two fields, or calls a
 function, can be selected by its own expression

Property: C07
---
 histbook/proj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index ab6d5dc..7fe44d3 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -322,7 +322,9 @@ class Projectable(object):
             return self._select(expr, tolerance)
 
     def _select(self, expr, tolerance):
-        if not isinstance(expr, (histbook.expr.Relation, histbook.expr.Logical, histbook.expr.Predicate, histbook.expr.Name)):
+        iscut = any(isinstance(x, histbook.axis.cut) and expr == x._parsed for x in self._fixed)
+
+        if not iscut and not isinstance(expr, (histbook.expr.Relation, histbook.expr.Logical, histbook.expr.Predicate, histbook.expr.Name)):
             raise TypeError("select expression must be boolean, not {0}".format(repr(str(expr))))
 
         def asconst(expr):
@@ -371,6 +373,8 @@ class Projectable(object):
                     cutcmp = {"<": ">", "<=": ">="}.get(cutcmp, cutcmp)
                 elif asconst(expr.left) is None and asconst(expr.right) is not None:
                     cutexpr, cutvalue = expr.left, asconst(expr.right)
+                elif iscut:
+                    return expr, "==", True
                 elif asconst(expr.left) is not None and asconst(expr.right) is not None:
                     raise TypeError("select expression must have a variable left or right hand side, not {0}".format(repr(str(expr))))
                 else:
-- 
2.43.0


From 05847a381821745e533f76069dca0a2510013d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 86/98] fix: filling a histogram with group axes from Spark
 raised AttributeError

Property: C20
---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 46f6562..5b98449 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -269,7 +269,7 @@ def fillspark(hist, df):
         elif isinstance(nextaxis, histbook.axis.GroupAxis):
             return {}
         else:
-            return numpy.zeros(hist._shape, dtype=histbook.hist.COUNTTYPE)
+            return numpy.zeros(hist._shape, dtype=hist.COUNTTYPE)
 
     def recurse(index, columns, axis, content):
         if len(axis) == 0:
-- 
2.43.0


From da2bf39212e5682dd659a453901179f594f68bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:15 +0000
Subject: [PATCH 87/98] fix: a filter without a weight was ignored by fills
 from Spark

Property: C20
---
 histbook/calc/spark.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 5b98449..3696397 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -241,18 +241,18 @@ def fillspark(hist, df):
     index = alias(fcns.struct(*indexes))
 
     selectcols = [index]
-    if hist._weightoriginal is not None:
+    if hist._weightparsed is not None:
         weightcol = tocolumns(df, histbook.instr.totree(hist._weightparsed))
     for axis in hist._profile:
         exprcol = tocolumns(df, histbook.instr.totree(axis._parsed))
-        if hist._weightoriginal is None:
+        if hist._weightparsed is None:
             selectcols.append(alias(exprcol))
             selectcols.append(alias(exprcol*exprcol))
         else:
             selectcols.append(alias(exprcol*weightcol))
             selectcols.append(alias(exprcol*exprcol*weightcol))
 
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         df2 = df.select(*selectcols)
     else:
         selectcols.append(alias(weightcol))
@@ -260,7 +260,7 @@ def fillspark(hist, df):
         df2 = df.select(*selectcols)
 
     aggs = [fcns.sum(df2[n]) for n in df2.columns[1:]]
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         aggs.append(fcns.count(df2[df2.columns[0]]))
 
     def getornew(content, key, nextaxis):
-- 
2.43.0


From 10c3c88192241c260237e1ebf5275f194e2c1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 88/98] fix: fills from Spark put values beyond an axis without
 flow bins, or above an intbin, in wrong bins

Property: C20
---
 histbook/calc/spark.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 3696397..b873862 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -214,7 +214,7 @@ def fillspark(hist, df):
             indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.numbins) + 1), discretized))))
 
         elif isinstance(axis, histbook.axis.intbin):
-            indexes.append(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.max) - int(axis.min) + 1), fcns.round(exprcol - int(axis.min) + 1))))
+            indexes.append(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.max) - int(axis.min) + 2), fcns.round(exprcol - int(axis.min) + 1))))
 
         elif isinstance(axis, histbook.axis.split):
             def build(x, i):
@@ -282,9 +282,21 @@ def fillspark(hist, df):
                 del content[None]
 
         elif isinstance(axis[0], (histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
-            i = index[0] - (1 if not axis[0].underflow else 0)
-            if int(i) < axis[0].totbins:
-                recurse(index[1:], columns, axis[1:], content[int(i)])
+            i = int(index[0])                          # 0: underflow, 1..numbins: finite bins, numbins + 1: overflow, numbins + 2: nanflow
+            if i == 0:
+                exists = axis[0].underflow
+            elif i == axis[0].numbins + 1:
+                exists = axis[0].overflow
+            elif i == axis[0].numbins + 2:
+                exists = axis[0].nanflow
+            else:
+                exists = True
+            if exists:
+                if i == axis[0].numbins + 2 and not axis[0].overflow:
+                    i -= 1
+                if not axis[0].underflow:
+                    i -= 1
+                recurse(index[1:], columns, axis[1:], content[i])
 
         elif isinstance(axis[0], histbook.axis.cut):
             recurse(index[1:], columns, axis[1:], content[0 if index[0] else 1])
-- 
2.43.0


From 4b9878dab1e0072eecbbe3ba3ffcd5d6534a9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 89/98] fix: 'in' and 'not in' could not be filled from Spark

Property: C20
---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index b873862..7c1af09 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -166,7 +166,7 @@ def tocolumns(df, expr):
         elif expr.fcn == "numpy.less_equal":
             return tocolumns(df, expr.args[0]) <= tocolumns(df, expr.args[1])
         elif expr.fcn == "numpy.isin":
-            return tocolumns(df, expr.args[0]) in tocolumns(df, expr.args[1])
+            return tocolumns(df, expr.args[0]).isin(sorted(expr.args[1].value))
         elif expr.fcn == "numpy.logical_not":
             return ~tocolumns(df, expr.args[0])
         elif expr.fcn == "numpy.add":
-- 
2.43.0


From 26fd6c462b1e7e3600f7f3d8dd81d6022560ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 90/98] fix: the modulus computed by Spark had the sign of the
 dividend

Property: C20
---
 histbook/calc/spark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 7c1af09..2826cdb 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -147,8 +147,9 @@ def tocolumns(df, expr):
             raise NotImplementedError(expr.fcn)  # FIXME
         elif expr.fcn == "logaddexp":
             raise NotImplementedError(expr.fcn)  # FIXME
-        elif expr.fcn == "mod" or expr.fcn == "fmod":
-            return tocolumns(df, expr.args[0]) % tocolumns(df, expr.args[1])
+        elif expr.fcn == "mod":
+            divisor = tocolumns(df, expr.args[1])
+            return ((tocolumns(df, expr.args[0]) % divisor) + divisor) % divisor      # Spark's remainder has the sign of the dividend
         elif expr.fcn == "right_shift" and isinstance(expr.args[1], histbook.expr.Const):
             return fcns.shiftRight(tocolumns(df, expr.args[0]), expr.args[1].value)
         elif expr.fcn == "rint":
-- 
2.43.0


From aed3d2288c6a183323254359e7cfba95ea4c266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 91/98] fix: expressions with pi, e and other constants could
 not be filled from Spark

Property: C20
---
 histbook/calc/spark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 2826cdb..f5f426a 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -50,6 +50,8 @@ def tocolumns(df, expr):
         return fcns.lit(expr.value)
 
     elif isinstance(expr, (histbook.expr.Name, histbook.expr.Predicate)):
+        if expr.value not in df.columns and expr.value in histbook.expr.Expr.maybeconstants:
+            return fcns.lit(histbook.expr.Expr.maybeconstants[expr.value])
         return df[expr.value]
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From ffcb761bf3f0b108117a547dc91edc997df73ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:48 +0000
Subject: [PATCH 92/98] fix: huge values filled from Spark went to the
 underflow bin

Property: C20
---
 histbook/calc/spark.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index f5f426a..4407d12 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -210,6 +210,7 @@ def fillspark(hist, df):
 
         elif isinstance(axis, histbook.axis.bin):
             scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)))
+            scaled = fcns.greatest(fcns.lit(-1.0), fcns.least(fcns.lit(float(axis.numbins + 1)), scaled))     # stay in the range of integers
             if axis.closedlow:
                 discretized = fcns.floor(scaled) + 1
             else:
-- 
2.43.0


From 81e31994a361bb77ab1a6588bbe2eeef8a98b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:46 +0000
Subject: [PATCH 93/98] fix: fields listed a field twice when it is used both
 as a value and as a condition

Property: C21
---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index bc1b650..819cff6 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst))
+            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))
 
         return self._fields
 
-- 
2.43.0


From 239718c982116ff3c09638138e0567fb9f463599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:00 +0000
Subject: [PATCH 94/98] fix: options were not separated in the representation
 of a plot

Property: C17
---
 histbook/vega.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 392e80b..9857044 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -120,7 +120,7 @@ class Terminal1dChannel(Channel):
             args.append("colorscale={0}".format(repr(self.colorscale)))
         if self.shapescale is not None:
             args.append("shapescale={0}".format(repr(self.shapescale)))
-        return ".{0}({1})".format(self._method, "".join(args))
+        return ".{0}({1})".format(self._method, ", ".join(args))
 
 class BarChannel(Terminal1dChannel):
     """Represents a bar axis in a Vega-Lite plot."""
@@ -175,7 +175,7 @@ class Terminal2dChannel(Channel):
             args.append("yscale={0}".format(repr(self.yscale)))
         if self.colorscale is not None:
             args.append("colorscale={0}".format(repr(self.colorscale)))
-        return ".{0}({1})".format(self._method, "".join(args))
+        return ".{0}({1})".format(self._method, ", ".join(args))
 
 class HeatmapChannel(Terminal2dChannel):
     """Represents a heatmap in a Vega-Lite plot."""
-- 
2.43.0


From fdc4bf7d73e6744fe0dbe9b8bcad3a1c70170522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 95/98] fix: non-finite binning and NaN edges were accepted by
 axes

Property: C21
---
 histbook/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/histbook/axis.py b/histbook/axis.py
index c530cce..d28d5eb 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -181,6 +181,8 @@ class Axis(object):
     def _real(x, n):
         if not isinstance(x, (numbers.Real, numpy.floating)):
             raise TypeError("{0} must be a real number".format(n))
+        elif not numpy.isfinite(float(x)):
+            raise ValueError("{0} must be finite".format(n))
         else:
             return float(x)
 
@@ -1032,6 +1034,8 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
             if len(edges) < 1 or not all(isinstance(x, (numbers.Real, numpy.floating)) for x in edges):
                 raise TypeError("edges must be a non-empty list of real numbers")
             self._edges = tuple(sorted(float(x) for x in edges),)
+        if any(numpy.isnan(x) for x in self._edges):
+            raise ValueError("edges must not be NaN")
         if len(self._edges) != len(set(self._edges)):
             raise ValueError("edges must all be distinct")
         self._underflow = self._bool(underflow, "underflow")
-- 
2.43.0


From f864eeede2db5c03506ba3610cb2a012027ed3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:32 +0000
Subject: [PATCH 96/98] fix: an unknown kind of error shifted the columns of a
 fraction

Property: C12
---
 histbook/proj.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index 7fe44d3..68c672a 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -794,6 +794,9 @@ class Projectable(object):
                 elif error == "bayesian-uniform":
                     raise NotImplementedError
 
+                else:
+                    raise ValueError("unrecognized error for Hist.fraction: {0}".format(repr(error)))
+
             if recarray:
                 return out.view([(x, numpy.dtype(numpy.float64)) for x in columns]).reshape(denomhist._shape[:-1])
             else:
-- 
2.43.0


From bfef4c45c63df0adc66a1b05a58bade3887dc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 97/98] fix: levels given as an iterator were used up before
 the errors of a fraction were computed

Property: C12
---
 histbook/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index 68c672a..2055634 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -680,6 +680,8 @@ class Projectable(object):
         levels = opts.pop("level", math.erf(math.sqrt(0.5)))
         if isinstance(levels, (numbers.Real, numpy.floating, numpy.integer)):
             levels = (levels,)
+        else:
+            levels = tuple(levels)
         recarray = opts.pop("recarray", True)
         showcolumns = opts.pop("columns", False)
         if len(opts) > 0:
-- 
2.43.0


From 5013d51d8e59c4e33f400c34878bde059aa338b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 98/98] fix: edges of regular axes were inexact (22 bins from 0
 to 22 had an edge at 14.999999999999998), so that rebin refused exact edges

Property: C09
---
 histbook/axis.py   | 6 +++---
 histbook/export.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index d28d5eb..e3943fe 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -657,7 +657,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         return bin(label, self._numbins, self._low, self._high, underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
 
     def split(self):
-        splitaxis = split(self._expr, [(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(self._numbins)] + [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
+        splitaxis = split(self._expr, [float(i) * (self._high - self._low) / float(self._numbins) + self._low for i in range(self._numbins)] + [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             splitaxis._original = self._original
         if hasattr(self, "_parsed"):
@@ -686,7 +686,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit([(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(0, self._numbins, factor)] + [self._high], content, index)
+        return self._rebinsplit([float(i) * (self._high - self._low) / float(self._numbins) + self._low for i in range(0, self._numbins, factor)] + [self._high], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -778,7 +778,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         def i2x(i):
             if i == self._numbins:
                 return float(self._high)
-            return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
+            return float(i) * float(self._high - self._low) / float(self._numbins) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
                              ([Interval(float(self._high), float("inf"), closedlow=self._closedlow, closedhigh=True)] if self.overflow else []) +
diff --git a/histbook/export.py b/histbook/export.py
index 7bb780b..a1137a2 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -105,7 +105,7 @@ class Exportable(object):
                             index(j + 1, None, key + (pd.Interval(float("-inf"), axis.low, closed=closed),))
                         last = axis.low
                         for i in range(axis.numbins):
-                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low)
+                            this = float(axis.high) if i + 1 == axis.numbins else float(i + 1) * float(axis.high - axis.low) / float(axis.numbins) + float(axis.low)
                             index(j + 1, None, key + (pd.Interval(last, this, closed=closed),))
                             last = this
                         if axis.overflow:
-- 
2.43.0

