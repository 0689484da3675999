SEEDS = [
dict(id="s01-groupbin-nan", property="C01", needs="a sparse axis without nanflow, filled with NaN and at least two different bins in the same call",
     breaks="NaN is counted in the second bin of the fill instead of nowhere",
     edits=[("histbook/calc/__init__.py", "                numpy.multiply(inverse, -1, inverse)\n                inverse[ok] = okinverse", "                inverse[ok] = okinverse")],
     demo="""
h = Hist(groupbin("x", 1, nanflow=False))
h.fill(x=numpy.array([0.5, 1.5, numpy.nan]))
assert sum(float(v["count()"]) for v in h.table().values()) == 2, h.table()
"""),
dict(id="s01-split-high-nan", property="C01", needs="an irregular axis with closedlow=False, no overflow, and a value exactly on the last edge",
     breaks="the value on the last (closed) edge is dropped",
     edits=[("histbook/calc/__init__.py", "        if not overflow:\n            indexes[indexes == len(edges)] = numpy.ma.masked\n", "        if not overflow:\n            indexes[numpy.greater_equal(values, edges[-1])] = numpy.ma.masked\n")],
     demo="""
h = Hist(split("x", [0, 1, 2], overflow=False, closedlow=False))
h.fill(x=numpy.array([2.0, 1.0, 3.0]))
assert h.table(recarray=False)[:, 0].sum() == 2, h.table()
"""),
dict(id="s02-sumw2-group", property="C02", needs="a weighted histogram with a group axis and weights other than 0 and 1",
     breaks="squared weights of grouped histograms are the plain weights, so errors are wrong",
     edits=[("histbook/hist.py", "                        subweight2 = weight2[selection]", "                        subweight2 = subweight if j + 1 < len(self._group) else weight2[selection]")],
     demo="""
h = Hist(groupby("a"), groupby("b"), bin("x", 2, 0, 2), weight="w")
h.fill(a=numpy.array([0, 0, 1]), b=numpy.array([1, 1, 1]), x=numpy.array([0.5, 0.5, 0.5]), w=numpy.array([2.0, 3.0, 1.0]))
assert abs(h.table()[0][1]["err(count())"][1] - 13**0.5) < 1e-9, h.table()
"""),
dict(id="s03-profile-duplicates", property="C03", needs="two or more entries of one fill call in the same bin of a histogram with a profile",
     breaks="only one of the entries of a call that share a bin reaches the sum of squares, so results depend on chunking",
     edits=[("histbook/hist.py", "                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)", "                content.reshape((-1, self._shape[-1]))[indexes.compressed(), axis._sumwx2index] += sumx2 * weight")],
     demo="""
a, b = Hist(bin("x", 2, 0, 2), profile("y")), Hist(bin("x", 2, 0, 2), profile("y"))
x, y = numpy.array([0.5, 0.5, 1.5]), numpy.array([1.0, 3.0, 2.0])
a.fill(x=x, y=y)
for i in range(3):
    b.fill(x=x[i:i+1], y=y[i:i+1])
assert a == b, (a.table("y"), b.table("y"))
"""),
dict(id="s04-negative-power", property="C04", needs="a mod with a negative operand",
     breaks="mod (and %) of negative numbers follows C instead of Python",
     edits=[("histbook/calc/__init__.py", 'library["mod"] = numpy.remainder', 'library["mod"] = numpy.fmod')],
     demo="""
h = Hist(bin("x % 3", 3, 0, 3))
h.fill(x=numpy.array([-1.0]))
assert list(h.table()["count()"]) == [0, 0, 0, 1, 0, 0], h.table()
"""),
dict(id="s05-similar", property="C05", needs="a sum of two quotients with the same numerator and different denominators",
     breaks="terms with different denominators are collected as if they were the same",
     edits=[("histbook/expr.py", "and self.pos == other.pos and self.neg == other.neg\n        \n", "and self.pos == other.pos and len(self.neg) == len(other.neg)\n        \n")],
     demo="""
from histbook.expr import Expr
assert Expr.parse("x/y + x/z") != Expr.parse("2*x/y"), Expr.parse("x/y + x/z")
"""),
dict(id="s05-denominators", property="C05", needs="denominators of several factors written in a different order",
     breaks="quotients with reordered denominators are different axes",
     edits=[("histbook/expr.py", "            neg = tuple(sorted(left.neg + right.neg))", "            neg = left.neg + right.neg if len(left.pos) == 1 and len(right.pos) == 0 else tuple(sorted(left.neg + right.neg))")],
     demo="""
from histbook.expr import Expr
assert Expr.parse("x/z/y") == Expr.parse("x/y/z"), Expr.parse("x/z/y")
"""),
dict(id="s06-shared-indexes", property="C06", needs="two histograms of a book that share the expression of their first fixed axis, the first of them with two fixed axes",
     breaks="the bin numbers of the shared axis are overwritten while the first histogram is filled",
     edits=[("histbook/hist.py", "            elif step == 1:\n                indexes = indexes.copy()\n", "")],
     demo="""
b = Book({"one": Hist(bin("x", 2, 0, 2), bin("y", 3, 0, 3)), "two": Hist(bin("x", 2, 0, 2))})
b.fill(x=numpy.array([0.5, 1.5]), y=numpy.array([0.5, 2.5]))
assert list(b["two"].table()["count()"]) == [0, 1, 1, 0, 0], b["two"].table()
"""),
dict(id="s07-split-nan", property="C07", needs="an irregular axis with closedlow=False and nanflow, selected from above",
     breaks="the selected axis still claims to have a nanflow bin that its content does not have",
     edits=[("histbook/axis.py", '''                elif not self._closedlow and cmp == "<=":
                    out._edges = self._edges[:edgei + 1]
                    out._overflow = False
                    out._nanflow = False
''', '''                elif not self._closedlow and cmp == "<=":
                    out._edges = self._edges[:edgei + 1]
                    out._overflow = False
''')],
     demo="""
h = Hist(split("x", [0, 1, 2], closedlow=False))
h.fill(x=numpy.array([0.5, 1.5, 0.7]))
s = h.select("x <= 1")
assert len(s.axis[0].keys()) == len(s.table()) == 2
assert not s.axis[0].nanflow
"""),
dict(id="s08-projection-order", property="C08", needs="projecting onto two fixed axes named in another order than they have in the histogram",
     breaks="the axes of the projection are in the order of the call, its contents are not",
     edits=[("histbook/proj.py", "        outaxis = [x for x in allaxis if x in axis] + [x for x in self._profile]", "        outaxis = list(axis) + list(self._profile)")],
     demo="""
h = Hist(bin("x", 2, 0, 2, False, False, False), bin("y", 2, 0, 2, False, False, False), bin("z", 2, 0, 2))
h.fill(x=numpy.array([0.5]), y=numpy.array([1.5]), z=numpy.array([0.5]))
assert h.project("y", "x") == h.project("x", "y")
"""),
dict(id="s09-overflow-nan", property="C09", needs="rebinning an axis with overflow and nanflow but no underflow",
     breaks="the nanflow bin is added to the overflow bin",
     edits=[("histbook/axis.py", "                    oldi2 = len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0)\n", "                    oldi2 = len(self._edges) + (1 if self._overflow else 0)\n")],
     demo="""
h = Hist(split("x", [0, 1, 2], underflow=False))
h.fill(x=numpy.array([0.5, numpy.nan, 7]))
assert list(h.rebin("x", [0, 2]).table()["count()"]) == [1, 1, 1], h.rebin("x", [0, 2]).table()
"""),
dict(id="s10-iadd-alias", property="C10", needs="+= of a histogram with a group axis to one without that key, then filling one of them",
     breaks="both histograms share the contents of the new key",
     edits=[("histbook/hist.py", '''                if n not in selfcontent:
                    selfcontent[n] = Hist._copycontent(othercontent[n])

        self._ownedcontent()
''', '''                if n not in selfcontent:
                    selfcontent[n] = othercontent[n]

        self._ownedcontent()
''')],
     demo="""
a, b = Hist(groupby("g"), bin("x", 2, 0, 2)), Hist(groupby("g"), bin("x", 2, 0, 2))
a.fill(g=numpy.array([0]), x=numpy.array([0.5]))
b.fill(g=numpy.array([1]), x=numpy.array([0.5]))
a += b
t = b.table()[1]["count()"].sum()
a.fill(g=numpy.array([1]), x=numpy.array([0.5]))
assert b.table()[1]["count()"].sum() == t == 1
"""),
dict(id="s11-intbin-flags", property="C11", needs="an integer axis with only one of underflow and overflow, through JSON",
     breaks="underflow and overflow are exchanged",
     edits=[("histbook/axis.py", 'return intbin(obj["expr"], obj["min"], obj["max"], obj["underflow"], obj["overflow"])', 'return intbin(obj["expr"], obj["min"], obj["max"], obj["overflow"], obj["underflow"])')],
     demo="""
h = Hist(intbin("i", 0, 2, underflow=False))
assert Hist.fromjson(h.tojson()) == h
"""),
dict(id="s12-wilson", property="C12", needs="fraction with error='wilson'",
     breaks="the Wilson interval is computed with the wrong term",
     edits=[("histbook/proj.py", "0.25*z**2/numpy.square(denom)", "0.25*z**2/denom")],
     demo="""
h = Hist(cut("x > 1"))
h.fill(x=numpy.array([0.5, 1.5, 2.5]))
t = h.fraction("x > 1", error="wilson")
p, n, z = 2/3.0, 3.0, 1.0
assert abs(float(t["err(x > 1)"]) - (p + z*z/2/n + z*(p*(1-p)/n + z*z/4/n/n)**0.5)/(1 + z*z/n)) < 1e-6, t
"""),
dict(id="s13-togroup-replaces", property="C13", needs="togroup with a name that is present, of histograms that have group axes and keys in common",
     breaks="the bins of the common keys are replaced instead of added",
     edits=[("histbook/hist.py", '''                        selfcontent[n] += othercontent[n]
                    else:
                        add(selfcontent[n], othercontent[n])
            for n in othercontent:
                if n not in selfcontent:
                    selfcontent[n] = Hist._copycontent(othercontent[n])

        self._prefill()''', '''                        selfcontent[n] += othercontent[n]
                    else:
                        selfcontent[n].update(Hist._copycontent(othercontent[n]))
            for n in othercontent:
                if n not in selfcontent:
                    selfcontent[n] = Hist._copycontent(othercontent[n])

        self._prefill()''')],
     demo="""
h = Hist(groupby("g"), bin("x", 2, 0, 2))
h.fill(g=numpy.array([0]), x=numpy.array([0.5]))
s = Hist.group(by="s", a=h)
s.togroup(a=h)
assert s.table()["a"][0]["count()"].sum() == 2, s.table()
"""),
dict(id="s14-nan-weights", property="C14", needs="a weight that is a plain field and has NaN in its array",
     breaks="NaN is replaced by zero in the caller's array",
     edits=[("histbook/hist.py", "                weight = weight.copy()\n                weight2 = weight2.copy()\n", "                weight2 = weight2.copy()\n")],
     demo="""
w = numpy.array([1.0, numpy.nan])
Hist(bin("x", 2, 0, 2), weight="w").fill(x=numpy.array([0.5, 1.5]), w=w)
assert numpy.isnan(w[1]), w
"""),
dict(id="s14-erf-inplace", property="C14", needs="erf or erfc of a field with negative values",
     breaks="the field's array is replaced by its absolute values",
     edits=[("histbook/calc/__init__.py", "        values = numpy.absolute(values)\n        t =", "        numpy.absolute(values, values)\n        t =")],
     demo="""
x = numpy.array([-1.0, 1.0])
Hist(bin("erf(x)", 2, -1, 1)).fill(x=x)
assert x[0] == -1, x
"""),
dict(id="s15-empty-books", property="C15", needs="deleting the last entry of a nested book by its path",
     breaks="the nested book disappears with its last entry",
     edits=[("histbook/book.py", '''                    attempt._del(name[slash + 1:], path + "/" + name[:slash])
''', '''                    attempt._del(name[slash + 1:], path + "/" + name[:slash])
                    if len(attempt) == 0 and "/" in path:
                        del self._content[name[:slash]]
''')],
     demo="""
b = Book({"a/b/h": Hist(bin("x", 2, 0, 2))})
del b["a/b/h"]
assert b.allkeys() == ["a", "a/b"], b.allkeys()
"""),
dict(id="s19-nested-samples", property="C19", needs="a samples book whose histograms are in nested books",
     breaks="all samples share the histograms of nested books",
     edits=[("histbook/book.py", "collections.OrderedDict((n, x.copyonfill()) for n, x in self.items())", "collections.OrderedDict((n, x.copyonfill() if isinstance(x, histbook.hist.Hist) else x) for n, x in self.items())")],
     demo="""
from histbook.book import SamplesBook
b = SamplesBook(["one", "two"], {"sub": Book({"h": Hist(bin("x", 2, 0, 2))})})
b["one"].fill(x=numpy.array([0.5]))
assert b["two/sub/h"].table()["count()"].sum() == 0
"""),
]
