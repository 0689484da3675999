SPARK = '''
import types
class Col(object):
    def __init__(self, f, n=None, chain=None):
        self.f, self.n, self.chain = f, n, chain
    def alias(self, n):
        return Col(self.f, n)
    def when(self, c, v):
        return case(self.chain + [(c, v)], None)
    def otherwise(self, v):
        return case(self.chain, v)
    __hash__ = None
def C(x):
    return x if isinstance(x, Col) else Col(lambda r: x)
def op(g):
    return lambda a, b: (lambda a, b: Col(lambda r: g(a.f(r), b.f(r))))(C(a), C(b))
import operator, math
for n, g in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("truediv", operator.truediv), ("lt", operator.lt), ("le", operator.le), ("gt", operator.gt), ("ge", operator.ge), ("eq", operator.eq), ("and", operator.and_), ("or", operator.or_)):
    setattr(Col, "__%s__" % n, op(g))
Col.__radd__ = Col.__add__
Col.__rmul__ = Col.__mul__
def case(chain, last):
    def f(r):
        for c, v in chain:
            if c.f(r):
                return C(v).f(r)
        return None if last is None else C(last).f(r)
    return Col(f, None, chain)
class DataFrame(object):
    def __init__(self, rows, names):
        self.rows, self.columns = rows, names
    def __getitem__(self, n):
        return Col(lambda r: r[n], n)
    def select(self, *cs):
        return DataFrame([dict((c.n, c.f(r)) for c in cs) for r in self.rows], [c.n for c in cs])
    def groupBy(self, c):
        self.by = c
        return self
    def agg(self, *fs):
        self.aggs = fs
        return self
    def collect(self):
        groups = {}
        for r in self.rows:
            groups.setdefault(self.by.f(r), []).append(r)
        return [(k,) + tuple(f(rs) for f in self.aggs) for k, rs in groups.items()]
DataFrame.__module__ = "pyspark.sql.dataframe"
F = types.ModuleType("pyspark.sql.functions")
F.lit = lambda v: C(v)
F.struct = lambda *cs: Col(lambda r: tuple(c.f(r) for c in cs))
F.floor = lambda c: Col(lambda r: c.f(r) if c.f(r) != c.f(r) else math.floor(c.f(r)))
F.ceil = lambda c: Col(lambda r: c.f(r) if c.f(r) != c.f(r) else math.ceil(c.f(r)))
F.round = lambda c: Col(lambda r: round(c.f(r)))
F.greatest = lambda *cs: Col(lambda r: max(c.f(r) for c in cs))
F.least = lambda *cs: Col(lambda r: min(c.f(r) for c in cs))
F.isnan = lambda c: Col(lambda r: c.f(r) != c.f(r))
F.isnull = lambda c: Col(lambda r: c.f(r) is None)
F.nanvl = lambda a, b: Col(lambda r: b.f(r) if a.f(r) != a.f(r) else a.f(r))
F.when = lambda c, v: case([(c, v)], None)
F.sum = lambda c: lambda rs: sum(c.f(r) for r in rs)
F.count = lambda c: lambda rs: len(rs)
import sys
for n in ("pyspark", "pyspark.sql"):
    sys.modules[n] = types.ModuleType(n)
sys.modules["pyspark"].sql = sys.modules["pyspark.sql"]
sys.modules["pyspark.sql"].functions = F
sys.modules["pyspark.sql.functions"] = F
def frame(**kw):
    names = sorted(kw)
    return DataFrame([dict(zip(names, v)) for v in zip(*[kw[n] for n in names])], names)
'''

SEEDS = [
dict(id="u01-split-first-edge", property="C01", needs="an irregular axis with closedlow=False and a value exactly on its lowest edge", breaks="the value goes to the first bin instead of the underflow",
     edits=[("histbook/calc/__init__.py", 'indexes[library["numpy.isin"](values, edges)] -= 1', 'indexes[library["numpy.isin"](values, edges[1:])] -= 1')],
     demo="""
h = Hist(split("x", [0, 1, 2], closedlow=False))
h.fill(x=numpy.array([0.0]))
assert h.table()["count()"].tolist() == [1, 0, 0, 0, 0], h.table()
"""),
dict(id="u04-fourth-power", property="C04", needs="a factor repeated four or more times", breaks="x**4 computed as x**3",
     edits=[("histbook/instr.py", "newargs.append(linear(fcn, (x,) * args.count(x)))", "newargs.append(linear(fcn, (x,) * min(args.count(x), 3)))")],
     demo="""
h = Hist(profile("x*x*x*x"))
h.fill(x=numpy.array([2.0]))
assert h.table("x**4").item()[2] == 16, h.table("x**4")
"""),
dict(id="u06-square-shared", property="C06", needs="a book in which one histogram has the weight w and another the profile w, filled with a NaN", breaks="the squares of the profile lose their NaN",
     edits=[("histbook/hist.py", "                weight2 = weight2.copy()\n", "")],
     demo="""
def make():
    return Hist(bin("x", 1, 0, 1), weight="w"), Hist(bin("x", 1, 0, 1), profile("w"))
data = dict(x=numpy.array([0.5, 0.5]), w=numpy.array([2.0, float("nan")]))
a, b = make()
c, d = make()
Book(a=a, b=b).fill(data)
c.fill(data)
d.fill(data)
assert numpy.array_equal(a[...], c[...], equal_nan=True) and numpy.array_equal(b[...], d[...], equal_nan=True), (b[...], d[...])
"""),
dict(id="u07-intbin-no-overflow", property="C07", needs="an integer axis without overflow, selected from below", breaks="the last bin is dropped",
     edits=[("histbook/axis.py", """                elif cmp == ">=":
                    out._min = int(round(value))
                    out._underflow = False
                    out._nanflow = False
                    out._checktot()
                    return out, slice(out._min - self._min + (1 if self._underflow else 0), None), round(value), False""", """                elif cmp == ">=":
                    out._min = int(round(value))
                    out._underflow = out._underflow and out._min == self._min and not self._overflow
                    out._nanflow = False
                    out._checktot()
                    return out, slice(out._min - self._min + (1 if self._underflow and not out._underflow else 0), None), round(value), False""")],
     demo="""
h = Hist(intbin("i", 0, 2, overflow=False))
h.fill(i=numpy.array([-1, 0]))
g = h.select("i >= 0")
assert g.table()["count()"].tolist() == [1, 0, 0], g.table()
"""),
dict(id="u08-project-filter", property="C08", needs="a histogram with both a filter and a weight, projected and then filled", breaks="the projection does not filter",
     edits=[("histbook/proj.py", """        outaxis = [x for x in allaxis if x in axis] + [x for x in self._profile]
        out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal,""", """        outaxis = [x for x in allaxis if x in axis] + [x for x in self._profile]
        out = self.__class__(*outaxis, weight=self._weightoriginal, filter=(self._filteroriginal if self._weightoriginal is None else None),""")],
     demo="""
h = Hist(bin("x", 1, 0, 1), cut("z > 0"), weight="w", filter="y > 0")
p = h.project("x")
p.fill(x=numpy.array([0.5, 0.5]), z=numpy.array([1, 1]), y=numpy.array([1, -1]), w=numpy.array([2.0, 2.0]))
assert p.table()["count()"][1] == 2, p.table()
"""),
dict(id="u09-split-closedlow", property="C09", needs="rebinning a regular axis with closedlow=False and looking at its keys, or filling it again", breaks="the rebinned axis is closed at the wrong ends",
     edits=[("histbook/axis.py", "+ [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)\n        if hasattr", "+ [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow)\n        if hasattr")],
     demo="""
h = Hist(bin("x", 4, 0, 4, closedlow=False)).rebin("x", [0, 2, 4])
h.fill(x=numpy.array([2.0]))
assert h.table()["count()"].tolist() == [0, 1, 0, 0, 0], h.table()
"""),
dict(id="u09-factor-remainder", property="C09", needs="rebinby with a factor that does not divide the number of bins", breaks="the remaining bins go to the overflow",
     edits=[("histbook/axis.py", "        return self._rebinsplit([(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(0, self._numbins, factor)] + [self._high], content, index)", "        return self._rebinsplit([(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(0, self._numbins, factor)] + ([self._high] if self._numbins % factor == 0 or self._numbins < 2 * factor else []), content, index)")],
     demo="""
h = Hist(bin("x", 5, 0, 5))
h.fill(x=numpy.array([0.5, 4.5]))
g = h.rebinby("x", 2)
assert g.table()["count()"].tolist() == [0, 1, 0, 1, 0, 0], g.table()
"""),
dict(id="u10-cleared-attachment", property="C10", needs="a cleared copy of a book, then an attachment to either", breaks="the attachments of a cleared book are those of the original",
     edits=[("histbook/book.py", "x.cleared()) for n, x in self.items()), dict(self._attachment))", "x.cleared()) for n, x in self.items()), self._attachment)")],
     demo="""
b = Book(h=Hist(bin("x", 1, 0, 1)))
b.cleared().attach("k", 1)
assert not b.has("k"), b.attachment
"""),
dict(id="u11-groupbin-flags", property="C11", needs="a sparse axis with one of nanflow and closedlow off, through JSON", breaks="the two flags are exchanged",
     edits=[("histbook/axis.py", 'return groupbin(obj["expr"], obj["binwidth"], obj["origin"], obj["nanflow"], obj["closedlow"])', 'return groupbin(obj["expr"], obj["binwidth"], obj["origin"], obj["closedlow"], obj["nanflow"])')],
     demo="""
h = Hist(groupbin("x", 1, nanflow=False))
assert Hist.fromjson(h.tojson()) == h, Hist.fromjson(h.tojson())
"""),
dict(id="u12-light-bins", property="C12", needs="a profile in a bin whose sum of weights is below one", breaks="mean, error and effective count of such bins are zero",
     edits=[("histbook/proj.py", "                good = sumw > 0\n                sumw = sumw[good]", "                good = sumw >= 1\n                sumw = sumw[good]")],
     demo="""
h = Hist(bin("x", 1, 0, 1), profile("y"), weight="w")
h.fill(x=numpy.array([0.5]), y=numpy.array([3.0]), w=numpy.array([0.5]))
assert h.table("y")["y"][1] == 3, h.table("y")
"""),
dict(id="u12-wilson-levels", property="C12", needs="a fraction with Wilson errors at several levels", breaks="all levels have the error of the first",
     edits=[("histbook/proj.py", "                        z = level2sigmas(level)\n", "                        z = level2sigmas(levels[0])\n")],
     demo="""
h = Hist(bin("x", 1, 0, 1), cut("p"))
h.fill(x=numpy.full(4, 0.5), p=numpy.array([True, False, True, True]))
f = h.fraction("p", error="wilson", level=(0.5, 0.9), recarray=False)[1]
g = h.fraction("p", error="wilson", level=0.9, recarray=False)[1]
assert f[3] == g[2], (f, g)
"""),
dict(id="u13-togroup-profile", property="C13", needs="togroup of a histogram with another profile", breaks="profiles of different quantities are mixed",
     edits=[("histbook/hist.py", "            if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:", "            if self._group[1:] + self._fixed != x._group + x._fixed or len(self._profile) != len(x._profile):")],
     demo="""
a, b = Hist(bin("x", 1, 0, 1), profile("y")), Hist(bin("x", 1, 0, 1), profile("z"))
g = Hist.group(by="s", a=a)
try:
    g.togroup(b=b)
except TypeError:
    pass
else:
    assert False
"""),
dict(id="u13-togroup-first", property="C13", needs="togroup of several histograms of which a later one does not fit", breaks="only the first is checked",
     edits=[("histbook/hist.py", """        for x in hists.values():
            if self._group[1:]""", """        for x in list(hists.values())[:1]:
            if self._group[1:]""")],
     demo="""
a, b = Hist(bin("x", 1, 0, 1)), Hist(bin("x", 1, 0, 2))
g = Hist.group(by="s", a=a)
try:
    g.togroup(b=a, c=b)
except TypeError:
    pass
else:
    assert False
"""),
dict(id="u14-split-sorts", property="C14", needs="a split axis made from an unsorted list", breaks="the caller's list is sorted",
     edits=[("histbook/axis.py", "            self._edges = tuple(sorted(float(x) for x in edges),)", "            if isinstance(edges, list):\n                edges.sort()\n            self._edges = tuple(sorted(float(x) for x in edges),)\n            self._edges = tuple(self._edges)")],
     demo="""
e = [3, 1, 2]
split("x", e)
assert e == [3, 1, 2], e
"""),
dict(id="u15-delete-deep", property="C15", needs="deleting a path of three or more levels", breaks="KeyError although the path is there",
     edits=[("histbook/book.py", """            del self._content[name]
            self._changed()
        else:
            try:
                slash = name.index("/")""", """            del self._content[name]
            self._changed()
        else:
            try:
                slash = name.rindex("/")""")],
     demo="""
b = Book()
b["a/b/c"] = Hist(bin("x", 1, 0, 1))
del b["a/b/c"]
assert b.allkeys() == ["a", "a/b"], b.allkeys()
"""),
dict(id="u16-interned-goals", property="C16", needs="two threads that build fill instructions for the same expression at the same time", breaks="nodes of the dependency graph are shared, and one thread clears what the other one walks",
     edits=[("histbook/instr.py", """    def __init__(self, goal):
        super(CallGraphGoal, self).__init__(totree(goal))
        self.original = goal""", """    interned = {}

    def __new__(cls, goal):
        return cls.interned.setdefault(goal, super(CallGraphGoal, cls).__new__(cls))

    def __init__(self, goal):
        super(CallGraphGoal, self).__init__(totree(goal))
        self.original = goal""")],
     demo="""
import threading
import histbook.instr
a, b = Hist(bin("x + y", 1, 0, 1)), Hist(bin("x + y", 1, 0, 1))
data = dict(x=numpy.array([0.25]), y=numpy.array([0.25]))
real, cleared, resume = histbook.instr.CallGraphNode.grow, threading.Event(), threading.Event()
def grow(self, table):
    if threading.current_thread() is t and not cleared.is_set():
        cleared.set()
        resume.wait(30)
    return real(self, table)
t = threading.Thread(target=lambda: b.fill(data))
sources = histbook.instr.sources
def paused(goals, table):
    out = sources(goals, table)
    if threading.current_thread() is not t and not cleared.is_set():
        t.start()
        cleared.wait(30)
    return out
histbook.instr.CallGraphNode.grow = grow
histbook.instr.sources = paused
try:
    a.fill(data)
finally:
    resume.set()
    t.join()
assert a.table()["count()"].tolist() == [0, 1, 0, 0] and b.table()["count()"].tolist() == [0, 1, 0, 0]
"""),
dict(id="u17-heatmap-transposed", property="C17", needs="a heatmap whose x axis comes after its y axis in the histogram", breaks="positions are encoded the wrong way round",
     edits=[("histbook/vega.py", '"color": {"field": varname + str(len(axis)), "type": "quantitative", "legend": {"title": colortitle}, "scale": {"zero": colorzero}}}\n', '"color": {"field": varname + str(len(axis)), "type": "quantitative", "legend": {"title": colortitle}, "scale": {"zero": colorzero}}}\n        if axis.index(self._last.xaxis) > axis.index(self._last.yaxis) and xtype == ytype:\n            encoding["x"]["field"], encoding["y"]["field"] = encoding["y"]["field"], encoding["x"]["field"]\n'), ("histbook/vega.py", """        # FIXME: let the user override this with explicit xtitle, ytitle, colortitle parameters
        xtitle = self._last.xaxis.expr
        ytitle = self._last.yaxis.expr
""", """        xtitle = self._last.xaxis.expr
        ytitle = self._last.yaxis.expr
""")],
     demo="""
h = Hist(bin("x", 2, 0, 2), bin("y", 2, 0, 2))
v = h.heatmap("y", "x").vegalite()
assert v["encoding"]["x"]["field"] == "a1" and v["encoding"]["y"]["field"] == "a0", v["encoding"]
"""),
dict(id="u17-combined-config", property="C17", needs="a combination of an overlay with plots after it", breaks="the plot after an overlay shows the data of the last plot in the overlay",
     edits=[("histbook/vega.py", """                tofill.append({"layer": []})
                i = plotable._fill(i, allaxis, alldomains, tofill[-1]["layer"])

            elif isinstance(plotable, below):""", """                tofill.append({"layer": []})
                i = max(i + 1, plotable._fill(i, allaxis, alldomains, tofill[-1]["layer"]) - 1)

            elif isinstance(plotable, below):""")],
     demo="""
import histbook.vega as V
h = Hist(bin("x", 2, 0, 2))
p = V.beside(V.overlay(h.step("x"), h.step("x")), h.step("x"))
v = p.vegalite()
assert v["hconcat"][1]["encoding"]["x"]["field"] == "d0", v["hconcat"][1]["encoding"]
"""),
dict(id="u18-root-errors", property="C18", needs="a weighted histogram without underflow exported to ROOT", breaks="the errors are one bin lower than their contents",
     edits=[("histbook/export.py", '                    errors[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["err(count())"][: (-1 if xaxis.nanflow else None)]', '                    count = len(content) - (1 if xaxis.nanflow else 0)\n                    errors[:count] = content["err(count())"][:count]')],
     demo="""
import types
R = types.ModuleType("ROOT")
class TH1D(object):
    def __init__(self, name, title, *binning): self.name = name
    def SetContent(self, x): self.content = list(x)
    def SetError(self, x): self.error = list(x)
    def SetEntries(self, x): pass
    def GetName(self): return self.name
R.TH1D = TH1D
sys.modules["ROOT"] = R
h = Hist(bin("x", 2, 0, 2, underflow=False), weight=2)
h.fill(x=numpy.array([0.5]))
assert h.root().error == [0, 2, 0, 0], h.root().error
"""),
dict(id="u18-pandas-nanflow", property="C18", needs="the export of a weighted integer axis inside another axis", breaks="rows of integer axes without overflow are labelled one too low",
     edits=[("histbook/export.py", "                            index(j + 1, None, key + (str(i),))", "                            index(j + 1, None, key + (str(i if axis.overflow or axis.underflow else i - axis.min),))")],
     demo="""
pd = __import__("types").ModuleType("pandas")
pd.Interval = lambda a, b, closed: (a, b, closed)
class MI:
    @staticmethod
    def from_arrays(keys, names): return keys
pd.MultiIndex = MI
pd.DataFrame = lambda **kw: kw
sys.modules["pandas"] = pd
h = Hist(intbin("i", 3, 4, underflow=False, overflow=False))
h.fill(i=numpy.array([3]))
assert h.pandas()["index"][0] == ["3", "4"], h.pandas()["index"]
"""),
dict(id="u19-view-basename", property="C19", needs="a view by a plain name that is also the last part of a deeper path", breaks="the view has histograms that do not match the pattern",
     edits=[("histbook/book.py", "                if fnmatch.fnmatchcase(path, name):\n                    return node", "                if fnmatch.fnmatchcase(path, name) or fnmatch.fnmatchcase(path.split(\"/\")[-1], name):\n                    return node")],
     demo="""
import histbook.book
b = histbook.book.ChannelsBook({"a": Hist(bin("x", 1, 0, 1)), "sub/a": Hist(bin("x", 1, 0, 1))})
assert b.view("a").allkeys() == ["a"], b.view("a").allkeys()
"""),
dict(id="u19-samples-original", property="C19", needs="a samples book whose first sample is filled, then looking at the histogram it was made from", breaks="the first sample is the original itself",
     edits=[("histbook/book.py", "            self[sample] = Book(hists1, *hists2, **hists3).copyonfill()", "            book = Book(hists1, *hists2, **hists3)\n            self[sample] = book.copyonfill() if len(self._content) != 0 else book")],
     demo="""
import histbook.book
h = Hist(bin("x", 1, 0, 1))
s = histbook.book.SamplesBook(["u", "v"], h=h)
s["u"].fill(x=numpy.array([0.5]))
assert h.table()["count()"].sum() == 0, h.table()
"""),
dict(id="u20-profile-weights", property="C20", needs="a Spark fill of a profile with weights other than 0 and 1", breaks="the second moment has the square of the weight",
     edits=[("histbook/calc/spark.py", "            selectcols.append(alias(exprcol*exprcol*weightcol))", "            selectcols.append(alias(exprcol*weightcol*exprcol*weightcol))")],
     demo=SPARK + """
h, g = Hist(bin("x", 1, 0, 1), profile("y"), weight="w"), Hist(bin("x", 1, 0, 1), profile("y"), weight="w")
d = dict(x=[0.5, 0.5], y=[1.0, 2.0], w=[3.0, 1.0])
h.fill(frame(**d))
g.fill(dict((n, numpy.array(v)) for n, v in d.items()))
assert numpy.array_equal(h[...], g[...]), (h[...], g[...])
"""),
dict(id="u20-repeated-groups", property="C20", needs="two group axes and a second Spark fill", breaks="the second fill replaces the inner groups of the first",
     edits=[("histbook/calc/spark.py", "        if key in content:\n            return content[key]\n        elif isinstance(nextaxis, histbook.axis.GroupAxis):\n            return {}", "        if isinstance(nextaxis, histbook.axis.GroupAxis):\n            return content[key] if key in content and len(content[key]) < 2 else {}\n        elif key in content:\n            return content[key]")],
     demo=SPARK + """
h, g = [Hist(groupby("a"), groupby("b")) for i in range(2)]
d = dict(a=["u", "u", "v"], b=["p", "q", "p"])
for i in range(2):
    h.fill(frame(**d))
    g.fill(dict((n, numpy.array(v)) for n, v in d.items()))
for a in ("u", "v"):
    for b in h._content[a]:
        assert h[a, b] == g[a, b], (h._content, g._content)
"""),
dict(id="u20-split-high", property="C20", needs="a Spark fill of an irregular axis with closedlow=False and a value on an edge", breaks="the value goes to the bin above",
     edits=[("histbook/calc/spark.py", "                        return build(x.when(exprcol <= float(axis.edges[i]), i), i + 1)", "                        return build(x.when(exprcol < float(axis.edges[i]), i), i + 1)")],
     demo=SPARK + """
h = Hist(split("x", [0, 1, 2], closedlow=False))
h.fill(frame(x=[1.0]))
assert h.table()["count()"].tolist() == [0, 1, 0, 0, 0], h.table()
"""),
dict(id="u21-interval-hash", property="C21", needs="equal intervals with ends given as int and as float", breaks="equal intervals hash differently",
     edits=[("histbook/axis.py", "return hash((self.__class__, self._low, self._high, self._closedlow, self._closedhigh))", "return hash((self.__class__, repr(self._low), repr(self._high), self._closedlow, self._closedhigh))")],
     demo="""
a, b = Interval(0, 1), Interval(0.0, 1.0)
assert a == b and hash(a) == hash(b)
"""),
dict(id="u21-groupkeys-first", property="C21", needs="the keys of a third group axis", breaks="only the keys below the last group of the second axis are reported",
     edits=[("histbook/hist.py", """                for x in content.values():
                    recurse(j + 1, x)
        
""", """                for x in (list(content.values()) if j == 0 else list(content.values())[:1]):
                    recurse(j + 1, x)
        
""")],
     demo="""
h = Hist(groupby("a"), groupby("b"), groupby("c"))
h.fill(a=numpy.array(["u", "u"]), b=numpy.array(["p", "q"]), c=numpy.array(["1", "2"]))
g = Hist(groupby("a"), groupby("b"), groupby("c"))
g.fill(a=numpy.array(["u"]), b=numpy.array(["p"]), c=numpy.array(["1"]))
g.fill(a=numpy.array(["u"]), b=numpy.array(["q"]), c=numpy.array(["2"]))
assert g.groupkeys("c") == {"1", "2"}, g.groupkeys("c")
"""),
dict(id="u21-axis-kind", property="C21", needs="two axes of one histogram with the same expression, looked up by kind with an option", breaks="options are only compared if the axis is the first with that expression",
     edits=[("histbook/proj.py", "            if isinstance(axis, cls) and axis._parsed == expr and all(hasattr(axis, n) and getattr(axis, n) == x for n, x in kwargs.items()):", "            if isinstance(axis, cls) and axis._parsed == expr and (len(kwargs) > 1 and axis is not self[0] or all(hasattr(axis, n) and getattr(axis, n) == x for n, x in kwargs.items())):")],
     demo="""
h = Hist(bin("x", 2, 0, 1), bin("x", 3, 0, 1), bin("x", 4, 0, 1))
assert h.axis.bin("x", numbins=4, low=0) is h.axis[2], h.axis.bin("x", numbins=4, low=0)
"""),
dict(id="u03-book-mul-nested", property="C03", needs="*= on a book with nested books", breaks="nested histograms are scaled twice",
     edits=[("histbook/book.py", "        for x in self.itervalues():\n            x.__imul__(value)", "        for x in self.itervalues(recursive=True):\n            x.__imul__(value)")],
     demo="""
b = Book()
b["s/h"] = Hist(bin("x", 1, 0, 1))
b.fill(x=numpy.array([0.5]))
b *= 2
assert b["s/h"].table()["count()"].sum() == 2
"""),
dict(id="u05-relation-order", property="C05", needs="two comparisons that only differ in their right sides, in a conjunction written in both orders", breaks="the order of the terms depends on how it was written",
     edits=[("histbook/expr.py", "            return (self.cmp, self.left, self.right) < (other.cmp, other.left, other.right)", "            return (self.cmp, self.left) < (other.cmp, other.left)")],
     demo="""
from histbook.expr import Expr
assert Expr.parse("x < y and x < z") == Expr.parse("x < z and x < y")
"""),
]
