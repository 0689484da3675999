SEEDS = [
dict(id="v01-index-width", property="C01", needs="an axis with more than 32767 bins", breaks="bin numbers wrap around",
     edits=[("histbook/calc/__init__.py", "INDEXTYPE = numpy.int32", "INDEXTYPE = numpy.int16")],
     demo="""
h = Hist(bin("x", 40000, 0, 40000))
h.fill(x=numpy.array([39999.5]))
assert h.table(recarray=False)[40000][0] == 1
"""),
dict(id="v02-fourth-axis", property="C02", needs="four fixed axes of different numbers of bins", breaks="the bins of the fourth axis are numbered with the size of the third",
     edits=[("histbook/hist.py", "                numpy.multiply(indexes, self._shape[axis._shapeindex], indexes)", "                numpy.multiply(indexes, self._shape[min(axis._shapeindex, 2)], indexes)")],
     demo="""
h = Hist(cut("p"), cut("q"), cut("r"), intbin("i", 0, 3, underflow=False, overflow=False))
h.fill(p=numpy.array([True]), q=numpy.array([True]), r=numpy.array([True]), i=numpy.array([3]))
assert h.table(recarray=False)[1, 1, 1, 3, 0] == 1
"""),
dict(id="v03-cancelling-group", property="C03", needs="adding a histogram whose group only the right one has, with weights that cancel", breaks="the squared weights of that group are lost",
     edits=[("histbook/hist.py", """                for n in othercontent:
                    if n not in selfcontent:
                        out[n] =""", """                for n in othercontent:
                    if n not in selfcontent and (isinstance(othercontent[n], dict) or othercontent[n][..., self._sumwindex].any()):
                        out[n] =""")],
     demo="""
a = Hist(groupby("g"), weight="w")
b = a.copy()
a.fill(g=numpy.array(["a"]), w=numpy.array([1.0]))
b.fill(g=numpy.array(["b", "b"]), w=numpy.array([1.0, -1.0]))
assert set((a + b).table()) == {"a", "b"}
"""),
dict(id="v04-long-chain", property="C04", needs="a comparison chain of five operands", breaks="the last comparison has the wrong left side",
     edits=[("histbook/expr.py", "[ast.Compare(node.left if i == 0 else node.comparators[i - 1], [node.ops[i]]", "[ast.Compare(node.left if i == 0 else node.comparators[min(i - 1, 1)], [node.ops[i]]")],
     demo="""
h = Hist(cut("a < b < c < d < f"))
h.fill(a=numpy.array([1]), b=numpy.array([2]), c=numpy.array([3]), d=numpy.array([9]), f=numpy.array([4]))
assert h.table(recarray=False)[:, 0].tolist() == [1, 0]
"""),
dict(id="v04-parse-cache", property="C04", needs="two histograms with the same expression and different definitions", breaks="the second one uses the definitions of the first",
     edits=[("histbook/expr.py", """        pyast = ast.parse(expression, mode="eval").body
""", """        if len(_defs) != 0:
            key = (expression, tuple(sorted(_defs)))
            if key not in Expr._withdefs:
                Expr._withdefs[key] = ast.parse(expression, mode="eval").body, _defs
            pyast, _defs = Expr._withdefs[key]
        else:
            pyast = ast.parse(expression, mode="eval").body
"""), ("histbook/expr.py", """    recognized = {abs: "abs", max: "max", min: "min"}
""", """    recognized = {abs: "abs", max: "max", min: "min"}

    _withdefs = {}
""")],
     demo="""
a = Hist(profile("k"), defs={"k": "x + 1"})
b = Hist(profile("k"), defs={"k": "x + 2"})
a.fill(x=numpy.array([0.0]))
b.fill(x=numpy.array([0.0]))
assert b.table("k")["k"] == 2, b.table("k")
"""),
dict(id="v07-conjunction-tolerance", property="C07", needs="a conjunction together with the tolerance option", breaks="the tolerance only applies to the first term",
     edits=[("histbook/proj.py", "                    out = out._select(arg, tolerance)", "                    out = out._select(arg, 1e-12)")],
     demo="""
h = Hist(bin("x", 4, 0, 4))
h.fill(x=numpy.array([0.5, 1.5, 2.5]))
assert h.select("x >= 1.001 and x < 3.001", tolerance=0.01).axis[0].numbins == 2
"""),
dict(id="v13-group-attachment-order", property="C13", needs="grouping histograms that are sorted differently by name than by insertion", breaks="the contents of the names are exchanged",
     edits=[("histbook/hist.py", "        for n, x in hists.items():\n            x = x.copy()\n            x._prefill()\n            out._content[n] = x._content\n        return out", "        for n, x in zip(sorted(hists), hists.values()):\n            x = x.copy()\n            x._prefill()\n            out._content[n] = x._content\n        return out")],
     demo="""
a = Hist(bin("x", 1, 0, 1), fill=numpy.array([0.5]))
b = Hist(bin("x", 1, 0, 1), fill=numpy.array([0.5, 0.5]))
g = Hist.group(b=b, a=a)
assert g.table(recarray=False)["b"][1, 0] == 2
"""),
dict(id="v16-shared-symbols", property="C16", needs="two threads filling with expressions at the same time", breaks="intermediate results of one thread are used by the other",
     edits=[("histbook/fill.py", "        symbols = {}\n", "        symbols = Fillable._symbols\n        symbols.clear()\n"), ("histbook/fill.py", "    def _fill(self, arrays):", "    _symbols = {}\n\n    def _fill(self, arrays):")],
     demo="""
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
def work(k):
    for i in range(60):
        try:
            h = Hist(bin("x*2 + %d" % k, 4, 0, 4), profile("x*3 + y*%d" % k))
            h.fill(x=numpy.full(50, 0.25), y=numpy.full(50, 1.0))
            if h.table("x*3 + y*%d" % k, recarray=False)[:, 0].sum() != 50:
                bad.append(1)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(k,)) for k in range(1, 7)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[:1]
"""),
dict(id="v17-frontend-validate", property="C17", needs="a plot handed to Altair after being drawn once", breaks="the specification changes from call to call",
     edits=[("histbook/vega.py", '        return {"application/vnd.vegalite.v2+json": self.vegalite()}', '        if not hasattr(self, "_drawn"):\n            self._drawn = self.vegalite()\n        return {"application/vnd.vegalite.v2+json": self._drawn}')],
     demo="""
h = Hist(bin("x", 2, 0, 2))
p = h.step("x")
h.fill(x=numpy.array([0.5]))
a = p._repr_mimebundle_()
h.fill(x=numpy.array([0.5]))
assert p._repr_mimebundle_() == {"application/vnd.vegalite.v2+json": p.vegalite()}
"""),
]
