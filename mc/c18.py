"""C18: exports, read back through stand-ins of the pandas and ROOT interfaces that model what those libraries do with their arguments."""
import itertools
import sys
import types

from mc.ref import *
from mc.c02 import spread, used
from mc.c10 import snap

# ------------------------------------------------------------------ stand-ins


class PdInterval(object):
    def __init__(self, left, right, closed="right"):
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': %s" % closed)
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        self.left, self.right, self.closed = left, right, closed


class PdIndex(object):
    def __init__(self, tuples, names):
        self.tuples, self.names = [tuple(t) for t in tuples], list(names)

    def __len__(self):
        return len(self.tuples)


class PdMultiIndex(PdIndex):
    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        arrays = [list(a) for a in arrays]
        if not arrays:
            raise ValueError("Must pass non-zero number of levels/codes")
        if len(set(map(len, arrays))) != 1:
            raise ValueError("all arrays must be same length")
        if names is not None and len(names) != len(arrays):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return cls(list(zip(*arrays)), names if names is not None else [None] * len(arrays))

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        tuples = [tuple(t) for t in tuples]
        if not tuples and names is None:
            raise TypeError("Cannot infer number of levels from empty list")
        return cls(tuples, names if names is not None else [None] * len(tuples[0]))


class PdDataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, dict):
            columns = list(data) if columns is None else columns
            data = numpy.array([numpy.asarray(data[c], dtype=float) for c in columns]).T
        if data is not None and getattr(data, "dtype", None) is not None and data.dtype.names:
            columns = list(data.dtype.names) if columns is None else columns
            data = numpy.array([[r[c] for c in columns] for r in data.reshape(-1)], dtype=float).reshape(-1, len(columns))
        self.columns = [] if columns is None else list(columns)
        self.index = index
        if data is None:
            self.values = numpy.full((0 if index is None else len(index), len(self.columns)), NAN)
            self.filled = False
        else:
            self.values = numpy.array(data, dtype=float)
            self.filled = True
            n = self.values.shape[0] if index is None else len(index)
            if self.values.shape != (n, len(self.columns)):
                raise ValueError("Shape of passed values is %s, indices imply %s" % (self.values.shape, (n, len(self.columns))))


class RootHist(object):
    def __init__(self, name, title, n, low, high=None):
        self.name, self.title, self.n = name, title, int(n)
        if high is None:
            self.edges = [float(x) for x in low]
            if not isinstance(low, numpy.ndarray) or low.dtype != numpy.float64 or len(self.edges) < self.n + 1:
                raise TypeError("edges must be an array of at least n + 1 doubles")
            self.edges = self.edges[:self.n + 1]
        else:
            self.edges = [low + (float(high) - low) * i / self.n for i in range(self.n + 1)]
        if not all(a < b for a, b in zip(self.edges, self.edges[1:])):
            raise ValueError("bins must be in increasing order")
        self.content = [0.0] * (self.n + 2)
        self.sumw2 = None
        self.entries = 0.0

    def GetName(self):
        return self.name

    def array(self, a):
        if not isinstance(a, numpy.ndarray) or a.dtype != numpy.float64 or not a.flags.c_contiguous:
            raise TypeError("expected an array of doubles")
        if len(a) < self.n + 2:
            raise ValueError("reads past the end of the array")
        return [float(x) for x in a[:self.n + 2]]

    def SetEntries(self, n):
        self.entries = float(n)

    def GetNbinsX(self):
        return self.n

    def Sumw2(self, flag=True):
        if self.sumw2 is None:
            self.sumw2 = [abs(x) for x in self.content]


class TH1D(RootHist):
    def SetContent(self, a):
        self.content = self.array(a)
        self.entries = 0.0

    def SetError(self, a):
        self.sumw2 = [x * x for x in self.array(a)]

    def SetBinContent(self, i, x):
        self.content[i] = float(x)
        self.entries += 1

    def SetBinError(self, i, x):
        self.Sumw2()
        self.sumw2[i] = float(x) ** 2

    def value(self, i):
        return self.content[i]

    def error(self, i):
        return math.sqrt(self.sumw2[i]) if self.sumw2 is not None else math.sqrt(abs(self.content[i]))


class TProfile(RootHist):
    """fArray holds sum(w*y), fSumw2 holds sum(w*y*y), fBinEntries holds sum(w); no fBinSumw2."""

    def __init__(self, *args):
        RootHist.__init__(self, *args)
        self.sumw2 = [0.0] * (self.n + 2)
        self.binentries = [0.0] * (self.n + 2)

    def SetBinEntries(self, i, x):
        self.binentries[i] = float(x)

    def SetBinContent(self, i, x):
        self.content[i] = float(x)
        self.entries += 1

    def SetBinError(self, i, x):
        self.sumw2[i] = float(x) ** 2

    def value(self, i):
        return self.content[i] / self.binentries[i] if self.binentries[i] != 0 else 0.0

    def error(self, i):
        n = self.binentries[i]
        if n == 0:
            return 0.0
        m = self.content[i] / n
        return math.sqrt(abs(self.sumw2[i] / n - m * m)) / math.sqrt(n)


def install():
    pd = types.ModuleType("pandas")
    pd.Interval, pd.MultiIndex, pd.DataFrame = PdInterval, PdMultiIndex, PdDataFrame
    pd.Index = lambda data=None, name=None, **kw: PdIndex([(x,) for x in data], [name])
    root = types.ModuleType("ROOT")
    root.TH1D, root.TProfile = TH1D, TProfile
    sys.modules["pandas"], sys.modules["ROOT"] = pd, root


# ------------------------------------------------------------------

G1, G2, GB, GBH = ["groupby", "g"], ["groupby", "k"], ["groupbin", "z", 2, 0, "NL"], ["groupbin", "z", 1, 0.5, "_H"]
BX, BN, BH = ["bin", "x", 2, 0, 2, "UONL"], ["bin", "x", 3, -0.4, 2, "___L"], ["bin", "x", 2, -1, 2, "_ONH"]
SZ, SH, II, IN, CP, CX = ["split", "z", [0, 1, 3], "_O_L"], ["split", "z", [-2, 0, 0.5, 5], "UONH"], ["intbin", "i", 0, 1, "UO"], ["intbin", "i", -1, 2, "__"], ["cut", "p"], ["cut", "x > 1"]
Y, XY = ["profile", "y"], ["profile", "x + y"]
BINNINGS = [[], [BX], [BN], [BH], [SZ], [SH], [II], [IN], [CP], [G1], [GB], [GBH],
            [G1, GB], [GB, G1], [G1, G2], [BX, CP], [CP, BX], [CP, CX], [SH, IN], [II, BH, CX], [BX, SZ, CP],
            [G1, BX], [GB, BN], [GB, CP], [GBH, CX, CP], [G1, BX, CP], [G1, GB, BX], [GB, G1, II, CX], [G1, G2, CP], [G1, CP, SH, BX], [G1, G2, GBH, BN]]
PROFILES = [[], [Y], [XY, Y]]
WEIGHTS = [{}, {"weight": "w"}, {"filter": "x > 0", "weight": "w*w"}, {"weight": "1 - w"}]
QVALS = {"x": [0.5, 1.0, -1.0, 2.0, NAN], "z": [0.5, 2.5, -3.0, NAN], "i": [0.0, 1.0, 5.0], "g": ["a", "bb", "c"], "k": ["u", "v"], "y": [0.5, -2.0], "w": [0.5, 3.0, 0.0], "p": [True, False]}


def pdkey(x):
    """A label of the frame as a comparable key."""
    if isinstance(x, PdInterval):
        return ("I", rnd(float(x.left)), rnd(float(x.right)), x.closed)
    if isinstance(x, str):
        return ("s", x)
    if isinstance(x, (bool, numpy.bool_)):
        return ("b", bool(x))
    return ("n", float(x))


def expkey(spec, key):
    """How a bin's key is labelled in the frame (pandas intervals are closed on one side)."""
    if key[0] == "NaN":
        return ("s", "{NaN}")
    if key[0] == "I":
        closed = "left" if "L" in flags_of(spec) else "right"
        if spec[0] == "intbin":
            closed = "left" if key[1] == -INF else "right"
        return ("I", rnd(key[1]), rnd(key[2]), closed)
    if key[0] == "b":
        return ("b", key[1])
    if spec[0] == "intbin":
        return ("s", str(key[1]))
    return ("s", key[1])


class Check(object):
    id = "C18"
    case_timeout = 400
    assumptions = ["pandas and ROOT are not installed: stand-ins model DataFrame/MultiIndex/Interval and TH1D/TProfile (SetContent, SetError, SetBinEntries, SetBinContent, SetBinError as in ROOT 6, without fBinSumw2)",
                   "group keys of pandas exports are strings or interval bins; the axis names of an empty frame are not checked; axes have at least one finite bin in ROOT exports",
                   "table() and fraction() themselves are decided by C12; here the frame is compared with them", "ROOT exports of categorical, cut and more than one axis are refused (NotImplementedError or TypeError)"]

    def bounds(self, tier):
        return {"binnings": len(BINNINGS), "profiles": len(PROFILES), "weights": len(WEIGHTS), "rows": "none, empty, one, %d" % (40 if tier == "thorough" else 24),
                "pandas": "every ordered selection of profiles x count/error/effcount/normalized; every ordered selection of cuts x error methods", "root": "every single binned axis, with and without each profile"}

    def cases(self, tier):
        return [[b, p, w] for b in range(len(BINNINGS)) for p in range(len(PROFILES)) for w in range(len(WEIGHTS)) if BINNINGS[b] or PROFILES[p] or w == 0]

    def frame(self, df, specs, content, columns, what):
        """Violation unless the frame has exactly the rows of content (as nested by group keys and arrays) under the keys of specs."""
        want = {}
        order = [s for s in specs if isgroup(s)] + [s for s in specs if isfixed(s)]

        def go(n, c, key):
            if n == len(order):
                want[key] = [float(v) for v in c]
            elif isgroup(order[n]):
                items = list(mk(order[n]).items(c))
                if len(items) != len(c):
                    raise core.Violation("items")
                for k, x in items:
                    go(n + 1, x, key + (expkey(order[n], obskey(k)),))
            else:
                c = c.tolist() if hasattr(c, "tolist") else c
                keys = refkeys(order[n])
                if len(keys) != len(c):
                    raise core.Violation("%r: %d bins, expected %d" % (order[n], len(c), len(keys)))
                for k, x in zip(keys, c):
                    go(n + 1, x, key + (expkey(order[n], k),))

        go(0, content, ())
        if list(df.columns) != list(columns):
            raise core.Violation("%s\ncolumns are %r, expected %r" % (what, df.columns, columns))
        if not order:
            rows = [()] * df.values.shape[0]
        else:
            rows = [tuple(pdkey(x) for x in t) for t in df.index.tuples]
        if len(rows) != len(want) or set(rows) != set(want):
            raise core.Violation("%s\nrows are %r\nexpected %r" % (what, rows, sorted(want)))
        if not want:
            return
        if order and list(df.index.names) != [s[1] for s in order]:
            raise core.Violation("%s\nindex names are %r, expected %r" % (what, df.index.names, [s[1] for s in order]))
        if not df.filled:
            raise core.Violation("%s\nthe frame holds no data" % what)
        for k, v in zip(rows, df.values.tolist()):
            if not all(close(a, b, 1e-12) for a, b in zip(v, want[k])):
                raise core.Violation("%s\nrow %r holds %r, expected %r (%r)" % (what, k, v, want[k], columns))

    def run(self, case, cx):
        install()
        b, p, w = case
        ref0 = Ref(BINNINGS[b] + PROFILES[p], **WEIGHTS[w])
        fields = used(ref0)
        allrows = [dict(zip(fields, t)) for t in itertools.product(*[QVALS[f] for f in fields])]
        big = spread(allrows, 40 if cx.tier == "thorough" else 24)
        bins, profs = ref0.binspecs, ref0.profspecs
        cuts = [s for s in bins if s[0] == "cut"]
        porders = list(itertools.chain.from_iterable(itertools.permutations(profs, k) for k in range(len(profs) + 1)))
        corders = list(itertools.chain.from_iterable(itertools.permutations(cuts, k) for k in range(1, len(cuts) + 1)))
        topts = [{}, {"error": False}, {"effcount": True}, {"count": False}, {"count": False, "error": False}, {"effcount": True, "error": False}, {"normalized": True}]
        fopts = [{}, {"error": None}, {"count": False}, {"error": "wilson", "level": 0.95}, {"level": [0.5, 0.99], "count": False}]
        names = lambda sel, n: [[mk(s), s[1], list(h.axis).index(mk(s))][n % 3] for s in sel]
        for rows in [None, [], [allrows[0]], big]:
            h = ref0.hist()
            if rows is not None:
                h.fill(columns(rows, fields))
            before = snap(h)
            n = 0
            for sel, opts in itertools.product(porders, topts):
                if (opts.get("count") is False and not sel) or (opts.get("normalized") and rows is not big):
                    continue
                n += 1
                what = "%r %r, %s rows: pandas(%r, %r)" % (ref0.specs, ref0.opts(), None if rows is None else len(rows), sel, opts)
                cx.step()
                cx.trace()
                content, cols = h.table(*[mk(s) for s in sel], **dict(opts, recarray=False, columns=True))
                df = h.pandas(*names(sel, n), **opts)
                self.frame(df, bins, content, cols, what)
                cx.state((case, what))
                cx.outcome((cols, repr(df.values.tolist())))
            for sel, opts in itertools.product(corders, fopts):
                n += 1
                what = "%r %r, %s rows: pandas(%r, %r)" % (ref0.specs, ref0.opts(), None if rows is None else len(rows), sel, opts)
                cx.step()
                cx.trace()
                content, cols = h.fraction(*[mk(s) for s in sel], **dict(opts, recarray=False, columns=True))
                df = h.pandas(*names(sel, n), **opts)
                self.frame(df, [s for s in bins if s not in sel], content, cols, what)
                cx.state((case, what))
                cx.outcome((cols, repr(df.values.tolist())))
            # ROOT
            for x in bins:
                for prof in [None] + profs:
                    sel = [x] + ([prof] if prof else [])
                    n += 1
                    if n % 2:
                        sel = sel[::-1]
                    args = names(sel, n)
                    if len(bins) == 1 and prof is None and n % 3 == 0:
                        args = []
                    what = "%r %r, %s rows: root(%r)" % (ref0.specs, ref0.opts(), None if rows is None else len(rows), args)
                    cx.step()
                    cx.trace()
                    cache = {}
                    try:
                        out = h.root(*args, name="N", title="T", cache=cache)
                    except (NotImplementedError, TypeError):
                        if x[0] in ("groupby", "groupbin", "cut"):
                            cx.count("refused")
                            continue
                        raise
                    except AttributeError:
                        if x[0] == "cut":
                            cx.count("refused")
                            continue
                        raise
                    if x[0] in ("groupby", "groupbin", "cut"):
                        continue
                    self.root(out, h, x, prof, what)
                    if cache.get("N") is not out or out.name != "N" or out.title != "T":
                        raise core.Violation("%s\nname, title or cache" % what)
                    cx.state((case, what))
                    cx.outcome(repr((out.content, out.sumw2)))
            # only one binned axis (and one profile) can be shown by ROOT
            wrong = [[p] for p in profs] + [[a, b] for a in bins for b in bins if a is not b] + [[a, p, q] for a in bins[:1] for p in profs for q in profs if p is not q]
            if len(bins) != 1:
                wrong.append([])
            for sel in wrong:
                n += 1
                cx.step()
                cache = {}
                try:
                    out = h.root(*names(sel, n), name="N", cache=cache)
                except (NotImplementedError, TypeError, ValueError):
                    if cache:
                        raise core.Violation("%r: root(%r) was refused but left %r in the cache" % (ref0.specs, sel, cache))
                    cx.count("refused")
                    continue
                raise core.Violation("%r: root(%r) gave %r" % (ref0.specs, sel, out))
            if snap(h) != before:
                raise core.Violation("%r: exporting changed the histogram" % (ref0.specs,))
        cx.sample({"axes": ref0.specs, "opts": ref0.opts()})

    def root(self, out, h, x, prof, what):
        if not isinstance(out, TProfile if prof else TH1D):
            raise core.Violation("%s\ngives a %s" % (what, type(out).__name__))
        keys = refkeys(["bin", x[1], x[3] - x[2] + 1, x[2] - 0.5, x[3] + 0.5, x[4] + "_L"] if x[0] == "intbin" else x)
        finite = [k for k in keys if k[0] == "I" and not math.isinf(k[1]) and not math.isinf(k[2])]
        edges = [k[1] for k in finite] + [finite[-1][2]]
        if len(out.edges) != len(edges) or not all(close(a, b) for a, b in zip(out.edges, edges)):
            raise core.Violation("%s\nbin edges are %r, expected %r" % (what, out.edges, edges))
        table = h.project(mk(x)).table(*([mk(prof)] if prof else []), recarray=False)
        want = [[0.0] * table.shape[-1] for i in range(len(finite) + 2)]
        for k, v in zip(keys, table.tolist()):
            if k[0] == "NaN":
                continue
            i = 0 if k[1] == -INF else len(finite) + 1 if k[2] == INF else 1 + finite.index(k)
            want[i] = v
        for i, v in enumerate(want):
            if prof and v[0] <= 0:
                continue
            got = (out.value(i), out.error(i))
            exp = (v[2], v[3]) if prof else (v[0], v[1])
            # the error of a profile is a square root of a difference of large numbers
            if not close(got[0], exp[0], 1e-9) or not close(got[1], exp[1], 1e-6 if prof else 1e-9):
                raise core.Violation("%s\nbin %d holds %r, expected %r" % (what, i, got, exp))
            if prof and not close(out.binentries[i], v[0]):
                raise core.Violation("%s\nbin %d has %r entries, expected %r" % (what, i, out.binentries[i], v[0]))
        total = sum(v[0] for v in want)
        if not close(out.entries, total):
            raise core.Violation("%s\n%r entries, expected %r" % (what, out.entries, total))


CHECK = Check()
