"""Planted bugs, fifth batch (see seed.py)."""
SEEDS = [
dict(id="w02-inf-weight", property="C02", needs="an infinite weight", breaks="the row is treated like one with a NaN weight",
     edits=[("histbook/hist.py", "            selection = numpy.isnan(weight)\n", "            selection = numpy.logical_not(numpy.isfinite(weight))\n")],
     demo="""
h = Hist(bin("x", 2, 0, 2), weight="w")
h.fill(x=numpy.array([0.5, 1.5]), w=numpy.array([numpy.inf, 2.0]))
assert h.table()["count()"].tolist()[1:3] == [numpy.inf, 2.0], h.table()
"""),
dict(id="w10-rebinby-attachment", property="C10", needs="rebinby, then an attachment on either side", breaks="both have it",
     edits=[("histbook/proj.py", "            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))\n\n        outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]\n        out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))",
                                    "            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))\n\n        outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]\n        out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=self._attachment)\n        out._attachment = self._attachment")],
     demo="""
h = Hist(bin("x", 4, 0, 4), attachment={"a": 1})
r = h.rebinby("x", 2)
r.attach("b", 2)
assert not h.has("b")
"""),
dict(id="w18-root-nan-entries", property="C18", needs="a ROOT export of a histogram with entries in the nanflow bin", breaks="they are counted as entries",
     edits=[("histbook/export.py", "                out.SetContent(entries)\n                out.SetEntries(entries.sum())", "                out.SetContent(entries)\n                out.SetEntries(content[\"count()\"].sum())")],
     demo="""
import sys, types
class TH1D(object):
    def __init__(self, *args): self.args = args
    def SetContent(self, x): self.content = list(x)
    def SetError(self, x): self.errors = list(x)
    def SetEntries(self, n): self.entries = n
    def GetName(self): return self.args[0]
sys.modules["ROOT"] = types.ModuleType("ROOT")
sys.modules["ROOT"].TH1D = TH1D
h = Hist(bin("x", 2, 0, 2))
h.fill(x=numpy.array([0.5, numpy.nan, 1.5]))
r = h.root()
assert r.entries == sum(r.content) == 2, (r.entries, r.content)
"""),
dict(id="w09-overflow-many", property="C09", needs="more than 40 bins merged into the overflow bin", breaks="the others are lost",
     edits=[("histbook/axis.py", "                if newaxis._overflow:\n                    oldi2 = len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0)\n", "                if newaxis._overflow:\n                    oldi2 = min(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), oldi + 40)\n")],
     demo="""
for n in (10, 39, 50, 100):
    h = Hist(bin("x", n, 0, n))
    h.fill(x=numpy.arange(n) + 0.5)
    assert h.rebin("x", [0, 1, 2]).table()["count()"].tolist() == [0, 1, 1, n - 2, 0], n
"""),
dict(id="w12-fraction-order", property="C12", needs="a fraction of two cuts named in another order than their axes", breaks="the columns are exchanged",
     edits=[("histbook/proj.py", "        cut = [self._fixed[i] for i in cutindex]\n", "        cut = [self._fixed[i] for i in sorted(cutindex)]\n")],
     demo="""
h = Hist(cut("p"), cut("q"))
h.fill(p=numpy.array([True, True, False, True]), q=numpy.array([True, False, False, False]))
t, c = h.fraction("q", "p", error=None, recarray=False, columns=True)
assert c == ["count()", "q", "p"], c
assert t.tolist() == [4.0, 0.25, 0.75], t
"""),
dict(id="w15-delete-empty-book", property="C15", needs="a wildcard deletion in a book where a matching name is also a book", breaks="the rest of the matches is skipped",
     edits=[("histbook/book.py", "                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:    # may already be gone with the book it was in\n                    self._del(n, \"\")", "                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:    # may already be gone with the book it was in\n                    stop = isinstance(self._get(n), GenericBook) and len(self._get(n)) == 0\n                    self._del(n, \"\")\n                    if stop:\n                        break")],
     demo="""
b = Book(a=Hist(bin("x", 1, 0, 1)), ab=Book(), abc=Hist(bin("x", 1, 0, 1)), z=Hist(bin("x", 1, 0, 1)))
del b["a*"]
assert b.keys() == ["z"], b.keys()
"""),
dict(id="w19-view-nested-pattern", property="C19", needs="a view pattern with a character class", breaks="case is ignored in it",
     edits=[("histbook/book.py", "                if fnmatch.fnmatchcase(path, name):\n                    return node", "                if fnmatch.fnmatchcase(path, name) or (\"[\" in name and fnmatch.fnmatchcase(path.lower(), name)):\n                    return node")],
     demo="""
c = ChannelsBook(a=Hist(bin("x", 1, 0, 1)), A=Hist(bin("x", 1, 0, 1)))
v = c.view("[ab]")
assert v.keys() == ["a"], v.keys()
"""),
dict(id="w11-nested-attachments", property="C11", needs="a book within a book with attachments of its own, through JSON", breaks="they are those of the outer book",
     edits=[("histbook/book.py", "        if len(self._attachment) != 0:\n            out[\"attachment\"] = dict(self._attachment)\n        return out\n\n    @staticmethod\n    def fromjson(obj):\n        cls =", "        if len(self._attachment) != 0:\n            out[\"attachment\"] = dict(self._attachment)\n        for node in out[\"content\"]:\n            if \"attachment\" in out and node[\"type\"] != \"Hist\" and \"attachment\" in node:\n                node[\"attachment\"] = dict(out[\"attachment\"], **node[\"attachment\"])\n        return out\n\n    @staticmethod\n    def fromjson(obj):\n        cls =")],
     demo="""
b = Book(x=Book(h=Hist(bin("x", 1, 0, 1))))
b.attach("a", 1)
b["x"].attach("b", 2)
assert Book.fromjson(b.tojson()) == b
"""),
dict(id="w03-book-iadd-itself", property="C03", needs="a book added to itself in place", breaks="nothing is added",
     edits=[("histbook/book.py", "            else:\n                self[n] += x\n        return self", "            elif self[n] is not x:\n                self[n] += x\n        return self")],
     demo="""
a = Book(h=Hist(bin("x", 1, 0, 1)))
a.fill(x=numpy.array([0.5]))
a += a
assert a["h"].table()["count()"].sum() == 2
"""),
dict(id="w14-constants-added", property="C14", needs="a fill of an expression with a named constant", breaks="the caller's mapping gets new entries",
     edits=[("histbook/fill.py", "                symbols[instruction.name] = array\n", "                symbols[instruction.name] = array\n                if isinstance(instruction.extern, histbook.expr.Name) and instruction.extern.value in histbook.expr.Expr.maybeconstants and isinstance(arrays, dict):\n                    arrays.setdefault(instruction.extern.value, array)\n")],
     demo="""
d = {"x": numpy.array([0.5])}
Hist(bin("x * pi", 4, 0, 4)).fill(d)
assert list(d) == ["x"], d
"""),
]
