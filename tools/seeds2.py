SEEDS = [
# ---- C01
dict(id="t01-groupbin-closedhigh-origin", property="C01", needs="a sparse axis with closedlow=False, a non-zero origin and a value exactly on an edge",
     breaks="values on an edge go to the bin above",
     edits=[("histbook/calc/__init__.py", "        if closedlow:\n            numpy.floor(indexes, indexes)\n        else:\n            numpy.ceil(indexes, indexes)\n            numpy.subtract(indexes, 1, indexes)\n\n        numpy.multiply", "        if closedlow or origin != 0:\n            numpy.floor(indexes, indexes)\n        else:\n            numpy.ceil(indexes, indexes)\n            numpy.subtract(indexes, 1, indexes)\n\n        numpy.multiply")],
     demo="""
h = Hist(groupbin("x", 2, origin=1, closedlow=False))
h.fill(x=numpy.array([3.0]))
assert h.groupkeys("x") == {1.0}, h.groupkeys("x")
"""),
# ---- C02
dict(id="t02-nested-groups-selection", property="C02", needs="two or more group axes",
     breaks="the second level of groups is selected without the first, so entries land in the wrong group",
     edits=[("histbook/hist.py", "                        suballselection[inverse != idx] = False\n", "                        suballselection[inverse != idx] = (len(self._group) > 2)\n")],
     demo="""
h = Hist(groupby("a"), groupby("b"), groupby("c"))
h.fill(a=numpy.array([0, 0, 1, 1]), b=numpy.array([0, 1, 0, 1]), c=numpy.array([0, 0, 1, 1]))
assert sum(float(z["count()"]) for x in h.table().values() for y in x.values() for z in y.values()) == 4, h.table()
"""),
dict(id="t02-const-weight-squared", property="C02", needs="a constant negative weight, or one other than 0 and 1",
     breaks="squared constant weights keep a sign",
     edits=[("histbook/hist.py", "            weight2 = numpy.ones(length) * self._weightparsed.value**2", "            weight2 = weight * abs(self._weightparsed.value)")],
     demo="""
h = Hist(bin("x", 1, 0, 1), weight=-2)
h.fill(x=numpy.array([0.5]))
assert h.table()["err(count())"][1] == 2, h.table()
"""),
# ---- C03
dict(id="t03-iadd-new-subgroup", property="C03", needs="two group axes and += of a histogram that has a new key on the second under a key both have",
     breaks="the new inner key is lost",
     edits=[("histbook/hist.py", """        def add(selfcontent, othercontent):
            assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
            for n in selfcontent:
                if n in othercontent:
                    if isinstance(selfcontent[n], numpy.ndarray):
                        selfcontent[n] += othercontent[n]
                    else:
                        add(selfcontent[n], othercontent[n])
            for n in othercontent:
                if n not in selfcontent:
                    selfcontent[n] = Hist._copycontent(othercontent[n])

        self._ownedcontent()
""", """        def add(selfcontent, othercontent):
            assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
            for n in selfcontent:
                if n in othercontent:
                    if isinstance(selfcontent[n], numpy.ndarray):
                        selfcontent[n] += othercontent[n]
                    else:
                        add(selfcontent[n], othercontent[n])
            if selfcontent is self._content:
                for n in othercontent:
                    if n not in selfcontent:
                        selfcontent[n] = Hist._copycontent(othercontent[n])

        self._ownedcontent()
""")],
     demo="""
a, b = Hist(groupby("a"), groupby("b")), Hist(groupby("a"), groupby("b"))
a.fill(a=numpy.array([0]), b=numpy.array([0]))
b.fill(a=numpy.array([0]), b=numpy.array([1]))
c = a + b
a += b
assert a == c, (a.table(), c.table())
"""),
dict(id="t03-mul-squares", property="C03", needs="a weighted histogram scaled in place",
     breaks="in-place scaling of weighted histograms differs from * (squared weights scaled twice)",
     edits=[("histbook/hist.py", "            else:\n                content *= value\n", "            else:\n                content *= value\n                if self._weightparsed is not None:\n                    content[..., self._sumw2index] *= value\n")],
     demo="""
h = Hist(bin("x", 1, 0, 1), weight="w")
h.fill(x=numpy.array([0.5]), w=numpy.array([3.0]))
g = h * 2
h *= 2
assert h == g, (h.table(), g.table())
"""),
dict(id="t03-book-add-names", property="C03", needs="book addition where the same name is present only on the right and nested",
     breaks="histograms only in the right book are scaled with the ones already there (shared object)",
     edits=[("histbook/book.py", "        for x in self.itervalues():\n            x.__imul__(value)\n", "        for x in self.itervalues(recursive=True):\n            x.__imul__(value)\n")],
     demo="""
h = Hist(bin("x", 1, 0, 1))
h.fill(x=numpy.array([0.5]))
b = Book(one=Book(two=h))
b *= 2
assert b["one/two"].table()["count()"][1] == 2, b["one/two"].table()
"""),
# ---- C04
dict(id="t04-divide-by-difference", property="C04", needs="a quotient whose denominator is a single negative term",
     breaks="the sign of the denominator is lost",
     edits=[("histbook/expr.py", "                        negation.const = PlusMinus.negateval(negation.const)\n", "                        negation.const = PlusMinus.negateval(negation.const) if len(negation.neg) < 2 else negation.const\n")],
     demo="""
h = Hist(profile("x/(-y*z)"))
h.fill(x=numpy.array([2.0]), y=numpy.array([1.0]), z=numpy.array([1.0]))
assert h.table("x/(-y*z)")["x/(-y*z)"] == -2, h.table("x/(-y*z)")
"""),
dict(id="t04-heaviside", property="C04", needs="erfc of a negative argument",
     breaks="erfc of negative arguments",
     edits=[("histbook/calc/__init__.py", "            return 1.0 - sign * y\n", "            return 1.0 - y\n")],
     demo="""
h = Hist(profile("erfc(x)"))
h.fill(x=numpy.array([-1.0]))
assert abs(h.table("erfc(x)")["erfc(x)"] - 1.8427) < 1e-3, h.table("erfc(x)")
"""),
dict(id="t04-delete-early", property="C04", needs="three or more terms in a product of which two are the same",
     breaks="repeated factors of long products are dropped",
     edits=[("histbook/instr.py", "                newargs.append(linear(fcn, (x,) * args.count(x)))", "                newargs.append(linear(fcn, (x,) * min(args.count(x), 3)))")],
     demo="""
h = Hist(profile("x**4"))
h.fill(x=numpy.array([2.0]))
assert h.table("x**4")["x**4"] == 16, h.table("x**4")
"""),
# ---- C05
dict(id="t05-predicate-sort", property="C05", needs="an equality of two expressions written both ways",
     breaks="mirrored equalities of compound expressions are different",
     edits=[("histbook/expr.py", "                    left, right = sorted([left, right])\n", "                    left, right = sorted([left, right], key=lambda x: x.__class__.__name__)\n")],
     demo="""
from histbook.expr import Expr
assert Expr.parse("x == y") == Expr.parse("y == x")
"""),
# ---- C06
# ---- C07
dict(id="t07-groupby-notin", property="C07", needs="not in on a categorical axis with more than one value",
     breaks="only exact sets",
     edits=[("histbook/axis.py", "            return self, lambda x: x not in value, None, False\n        else:\n            raise AssertionError(cmp)\n\n    def keys(self, content):\n        \"\"\"Returns key labels in the order of the bin content, to index the content.\"\"\"\n        return [n for n, x in self.items(content)]\n\n    def items(self, content):\n        \"\"\"Returns (key, value) pairs of the content.\"\"\"\n        if not isinstance(content, dict):\n            raise TypeError(\"groupby content",
                                   "            return self, lambda x: x not in value and x < max(value), None, False\n        else:\n            raise AssertionError(cmp)\n\n    def keys(self, content):\n        \"\"\"Returns key labels in the order of the bin content, to index the content.\"\"\"\n        return [n for n, x in self.items(content)]\n\n    def items(self, content):\n        \"\"\"Returns (key, value) pairs of the content.\"\"\"\n        if not isinstance(content, dict):\n            raise TypeError(\"groupby content")],
     demo="""
h = Hist(groupby("g"))
h.fill(g=numpy.array(["a", "b", "c"]))
assert set(h.select("g not in {'b', 'x'}").table()) == {"a", "c"}
assert set(h.select("g not in {'b', 'a'}").table()) == {"c"}
"""),
dict(id="t07-intbin-le-tolerance", property="C07", needs="an integer axis with underflow, selecting > the smallest value",
     breaks="the slice of the content ignores the underflow bin",
     edits=[("histbook/axis.py", "                elif cmp == \">\":\n                    out._min = int(round(value)) + 1\n                    out._underflow = False\n                    out._nanflow = False\n                    out._checktot()\n                    return out, slice(out._min - self._min + (1 if self._underflow else 0), None)", "                elif cmp == \">\":\n                    out._min = int(round(value)) + 1\n                    out._underflow = False\n                    out._nanflow = False\n                    out._checktot()\n                    return out, slice(out._min - self._min + (1 if self._underflow or self._overflow else 0), None)")],
     demo="""
h = Hist(intbin("i", 0, 3, underflow=False))
h.fill(i=numpy.array([0, 1, 2, 3, 9]))
assert list(h.select("i > 1").table()["count()"]) == [1, 1, 1], h.select("i > 1").table()
"""),
# ---- C08
dict(id="t08-drop-order", property="C08", needs="a histogram with two profiles and a weight, the first profile dropped",
     breaks="the squared weights of the result are taken from a profile",
     edits=[("histbook/proj.py", "            index.append(self._sumw2index)\n", "            index.append(self._sumw2index if len(self._profile) < 3 else self._sumwindex)\n")],
     demo="""
h = Hist(bin("x", 1, 0, 1), profile("y"), profile("z"), profile("t"), weight="w")
h.fill(x=numpy.array([0.5]), y=numpy.array([1.0]), z=numpy.array([1.0]), t=numpy.array([1.0]), w=numpy.array([3.0]))
assert h.drop("y").table()["err(count())"][1] == 3, h.drop("y").table()
"""),
# ---- C09
# ---- C11
dict(id="t11-setstate-filter", property="C11", needs="a pickled histogram with both a weight and a filter", breaks="the filter is lost in a pickle if there are definitions",
     edits=[("histbook/hist.py", "        self.__init__(*[histbook.axis.Axis._unpack(x) for x in packed], weight=weight, filter=filter, defs=defs, attachment=attachment)\n", "        self.__init__(*[histbook.axis.Axis._unpack(x) for x in packed], weight=weight, filter=filter if weight is None or filter is None else (\"({0}) or ({0})\".format(filter)), defs=defs, attachment=attachment)\n")],
     demo="""
import pickle
h = Hist(bin("x", 1, 0, 1), weight="w", filter="x > 0")
g = pickle.loads(pickle.dumps(h))
assert repr(g) == repr(h), g
"""),
dict(id="t11-split-json-closedlow", property="C11", needs="JSON of a cut axis / integer axis with only one flow bin", breaks="underflow and overflow flags swap in the pickle of integer axes when they differ",
     edits=[("histbook/axis.py", "        return intbin(obj[\"expr\"], obj[\"min\"], obj[\"max\"], obj[\"underflow\"], obj[\"overflow\"])", "        return intbin(obj[\"expr\"], obj[\"min\"], obj[\"max\"], obj[\"overflow\"], obj[\"underflow\"])")],
     demo="""
h = Hist(intbin("x", 0, 1, underflow=False))
assert Hist.fromjson(h.tojson()) == h
"""),
# ---- C12
dict(id="t12-effcount-unweighted", property="C12", needs="a table with effcount but no count", breaks="effcount",
     edits=[("histbook/proj.py", "                    effcnt = numpy.square(sumw) / content[good, self._sumw2index]\n", "                    effcnt = sumw if not count else numpy.square(sumw) / content[good, self._sumw2index]\n")],
     demo="""
h = Hist(bin("x", 1, 0, 1), weight="w")
h.fill(x=numpy.array([0.5, 0.5]), w=numpy.array([3.0, 1.0]))
assert h.table(effcount=True, count=False)["effcount()"][1] == 1.6, h.table(effcount=True, count=False)
"""),
dict(id="t12-normalized-error", property="C12", needs="a normalized table of a histogram with two fixed axes of different widths, the second irregular", breaks="widths of the wrong axis",
     edits=[("histbook/proj.py", "                    if error:\n                        out[:, errorindex] /= correction\n", "                    if error:\n                        out[:, errorindex] /= total\n")],
     demo="""
h = Hist(bin("x", 2, 0, 4))
h.fill(x=numpy.array([0.5, 0.5]))
t = h.table(normalized=True)
assert abs(t["err(count())"][1] / t["count()"][1] - 2**-0.5) < 1e-9, t
"""),
# ---- C13
# ---- C14

# ---- more
dict(id="t07-cut-negated", property="C07", needs="selecting the failing side of a cut with !=", breaks="cut != False keeps the failing side",
     edits=[("histbook/axis.py", "            if (cmp == \"==\" and value == True) or (cmp == \"!=\" and value == False):", "            if (cmp == \"==\" and value == True):"),
            ("histbook/axis.py", "            elif (cmp == \"==\" and value == False) or (cmp == \"!=\" and value == True):", "            elif (cmp == \"==\" and value == False) or cmp == \"!=\":")],
     demo="""
h = Hist(cut("p"))
h.fill(p=numpy.array([True, True, False]))
assert h.select("p != False").table()["count()"] == 2, h.select("p != False").table()
"""),
dict(id="t10-select-groups-alias", property="C10", needs="a histogram without fixed axes rebinned or projected on one group key", breaks="projections of a group with a single key share arrays with the source",
     edits=[("histbook/proj.py", "        def projarray(content):\n            return numpy.sum(content, tuple(i for i, x in enumerate(self._fixed) if x not in axis))\n", "        def projarray(content):\n            drop = tuple(i for i, x in enumerate(self._fixed) if x not in axis)\n            return numpy.sum(content, drop) if len(drop) > 0 else content\n")],
     demo="""
h = Hist(groupby("g"), bin("x", 1, 0, 1))
h.fill(g=numpy.array([1]), x=numpy.array([0.5]))
p = h.project("x")
p.fill(x=numpy.array([0.5]))
assert h.table()[1]["count()"][1] == 1, h.table()
"""),
dict(id="t10-weight-attachment", property="C10", needs="a histogram made with filter(), then attached to", breaks="the attachment dict of a book copy is the same one",
     edits=[("histbook/book.py", "        return self.__class__.fromdicts(collections.OrderedDict((n, x.copyonfill()) for n, x in self.items()), dict(self._attachment))", "        return self.__class__.fromdicts(collections.OrderedDict((n, x.copyonfill()) for n, x in self.items()), self._attachment)")],
     demo="""
b = Book(a=Hist(bin("x", 1, 0, 1)))
c = b.copyonfill()
c.attach("one", 1)
assert not b.has("one")
"""),
dict(id="t13-group-by-order", property="C13", needs="togroup with a name that is present, when the group was made of histograms with groups", breaks="inner groups of a name already present are replaced",
     edits=[("histbook/hist.py", "        if len(self._group) == 0 or not isinstance(self._group[0], histbook.axis.groupby):\n            raise ValueError(\"togroup", "        if len(self._group) == 0:\n            raise ValueError(\"togroup")],
     demo="""
h = Hist(groupbin("z", 1.0), bin("x", 1, 0, 1))
try:
    h.togroup(one=Hist(bin("x", 1, 0, 1)))
except ValueError:
    pass
else:
    raise AssertionError("a name on a numeric axis")
"""),
dict(id="t15-get-slash", property="C15", needs="a path through a histogram, or a name twice at different levels", breaks="lookup of a missing entry in a nested book falls back to the outer one",
     edits=[("histbook/book.py", "                    return attempt._get(name[slash + 1:])\n        return None", "                    inner = attempt._get(name[slash + 1:])\n                    return inner if inner is not None else self._content.get(name[slash + 1:], None)\n        return None")],
     demo="""
b = Book(a=Book(b=Hist(bin("x", 1, 0, 1))), c=Hist(bin("x", 2, 0, 1)))
assert "a/c" not in b
"""),
dict(id="t16-library-scratch", property="C16", needs="two threads filling histograms with a regular axis at the same time",
     breaks="the bin numbers of one thread are overwritten by the other",
     edits=[("histbook/fill.py", "        symbols = {}\n        for instruction in self._instructions:\n            if isinstance(instruction, histbook.instr.Param):\n                if isinstance(instruction.extern", "        symbols = Fillable._symbols\n        symbols.clear()\n        for instruction in self._instructions:\n            if isinstance(instruction, histbook.instr.Param):\n                if isinstance(instruction.extern"),
            ("histbook/fill.py", "    @property\n    def fields(self):\n", "    _symbols = {}\n\n    @property\n    def fields(self):\n")],
     demo="""
import sys, threading
sys.setswitchinterval(1e-6)
bad = []
def work(i):
    x = numpy.full(3, i + 0.5)
    for _ in range(400):
        h = Hist(bin("x + y", 4, 0, 4))
        try:
            h.fill(x=x, y=numpy.zeros(3))
        except Exception as e:
            bad.append(e)
        else:
            if h.table()["count()"][i + 1] != 3:
                bad.append(h.table())
threads = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in threads]
[t.join() for t in threads]
assert not bad, (len(bad), bad[0])
"""),
dict(id="t17-varname", property="C17", needs="a combination of more than 26 plots", breaks="plots after the 26th have the names of earlier ones",
     edits=[("histbook/vega.py", "            i //= 26\n        return", "            i //= 26 * 26\n        return")],
     demo="""
import json
from histbook.vega import *
h = [Hist(bin("x", 1, 0, 1)) for i in range(60)]
for i, x in enumerate(h):
    x.fill(x=numpy.full(i, 0.5))
v = beside(*[x.bar() for x in h]).vegalite()
ids = [x["transform"][-1]["filter"]["equal"] for x in v["hconcat"]]
assert len(set(ids)) == 60
"""),
dict(id="t17-log-zero", property="C17", needs="a logarithmic y scale given as a dict, bins with negative or zero content", breaks="zero bins are left out of plots with a scale that is not logarithmic",
     edits=[("histbook/vega.py", "                if datum[varname + str(j)] > 0 or (self._last.yscale != \"log\" and not (isinstance(self._last.yscale, dict) and self._last.yscale.get(\"type\", None) == \"log\")):", "                if datum[varname + str(j)] > 0 or self._last.yscale is None:")],
     demo="""
h = Hist(bin("x", 2, 0, 2))
h.fill(x=numpy.array([0.5]))
v = h.bar(yscale="linear").vegalite()
assert len(v["data"]["values"]) == len(h.bar().vegalite()["data"]["values"])
"""),
dict(id="t17-error-column", property="C17", needs="error bars of a histogram with three axes", breaks="errors drawn from the wrong column",
     edits=[("histbook/vega.py", "            transform2 = [{\"calculate\": \"datum.{0} - datum.{1}\".format(varname + str(len(axis)), varname + str(len(axis) + 1))", "            transform2 = [{\"calculate\": \"datum.{0} - datum.{1}\".format(varname + str(len(axis)), varname + str(len(axis) + (1 if len(axis) < 2 else 0)))")],
     demo="""
h = Hist(groupby("g"), bin("x", 2, 0, 2))
h.fill(g=numpy.array([1]), x=numpy.array([0.5]))
v = h.overlay("g").marker("x", error=True).vegalite()
assert "datum.a3" in v["layer"][1]["transform"][0]["calculate"], v["layer"][1]
"""),
dict(id="t18-pandas-split-closed", property="C18", needs="exporting an irregular axis with closedlow=False and underflow", breaks="underflow closed on the wrong side",
     edits=[("histbook/export.py", "                            index(j + 1, None, key + (pd.Interval(float(\"-inf\"), axis.edges[0], closed=closed),))", "                            index(j + 1, None, key + (pd.Interval(float(\"-inf\"), axis.edges[0], closed=\"left\"),))")],
     demo="""
import sys, types
pd = types.ModuleType("pandas")
pd.Interval = lambda a, b, closed: (a, b, closed)
class MI:
    @staticmethod
    def from_arrays(keys, names): return keys
pd.MultiIndex = MI
pd.DataFrame = lambda **kw: kw
sys.modules["pandas"] = pd
h = Hist(split("x", [0, 1], closedlow=False))
h.fill(x=numpy.array([0.5]))
assert h.pandas()["index"][0][0] == (float("-inf"), 0.0, "right"), h.pandas()["index"]
"""),
dict(id="t19-assertcompatible", property="C19", needs="a systematics book with three or more histograms of which two neighbours differ only later", breaks="only the first two histograms are compared",
     edits=[("histbook/book.py", "            for (n1, x1), (n2, x2) in zip(items[:-1], items[1:]):", "            for (n1, x1), (n2, x2) in zip(items[:1], items[1:]):")],
     demo="""
from histbook.book import SystematicsBook
h = lambda n, s: Hist(bin("x", n, 0, 1), systematic=(s,))
try:
    SystematicsBook(a=h(1, 0), b=h(1, 1), c=h(2, 2))
except ValueError:
    pass
else:
    raise AssertionError
"""),
]
