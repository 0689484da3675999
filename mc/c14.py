"""C14: rejected calls change nothing and caller-owned data is never modified.

reject  every failing call of an alphabet (failing fills for every field, every access of the field mapping made to fail in turn, incompatible
        operands, unknown axes, invalid selections, edges, factors and expressions) injected after every prefix of valid operations up to the depth,
        followed by every continuation; all objects involved must show what a twin shows that never got the failing call
caller  fills of every expression and axis kind from read-only, strided, reversed, shared and narrow arrays, monitored bitwise; dicts, axis objects,
        lists of edges, definitions and attachments given to the library stay the caller's own"""
import collections
import copy
import itertools
import json

from mc.ref import *
from mc.c03 import ROWS, FIELDS
from mc.c10 import snap
from histbook.book import GenericBook, ChannelsBook, SystematicsBook
from histbook.expr import ExpressionError
import histbook.vega

CONFIGS = [
    # axes, options, selections that have to be refused, rebinnable axis
    dict(specs=[["bin", "x", 2, 0, 2, "UONL"]], opts={}, badselect=["x > 0", "x >= 0.5", "x <= 1", "y >= 0", "x == 1"], rebin="x"),
    dict(specs=[["groupby", "g"], ["bin", "x", 2, 0, 2, "UO_L"], ["profile", "y"], ["profile", "x"]], opts={"weight": "w"}, badselect=["x > 1", "y >= 1", "x >= 0 and x >= 0.25"], rebin="x"),
    dict(specs=[["groupby", "g"], ["groupbin", "x", 1, 0, "NL"]], opts={"filter": "x > 0.6"}, badselect=["x > 1", "x >= 0.5", "g == 'a' and z >= 0"], rebin=None),
    dict(specs=[["split", "x", [0, 1, 3], "UO_H"], ["cut", "y > 1"], ["profile", "y"]], opts={"weight": "w*k", "defs": {"k": "1 + i"}}, badselect=["x >= 1", "x > 0.5", "y > 2", "k > 1"], rebin="x"),
    dict(specs=[["intbin", "i", 0, 3, "UO"], ["profile", "y"]], opts={"weight": 2.5}, badselect=["i > 0.5", "i < 1.5", "y > 1"], rebin="i"),
    dict(specs=[["profile", "y"]], opts={"filter": "x > 0.6", "weight": "w"}, badselect=["y > 1", "x > 0.6"], rebin=None),
]
BOOKS = ["flat", "nested", "alias", "systematics", "channels"]


def data(rows):
    return columns(rows, FIELDS)


class Boom(Exception):
    pass


class Faulty(object):
    """A mapping whose k-th access fails."""

    def __init__(self, d, k):
        self.d, self.k, self.n = d, k, 0

    def __getitem__(self, key):
        self.n += 1
        if self.n - 1 == self.k:
            raise Boom(key)
        return self.d[key]

    def __contains__(self, key):
        return key in self.d


class NoArray(object):
    def __array__(self, *args):
        raise Boom("cannot be converted")


def hists(x):
    return [x] if isinstance(x, Hist) else x.values(recursive=True, onlyhist=True)


def fieldsof(x):
    return sorted(set(f for h in hists(x) for f in h.fields))


def badfills(x):
    """name -> (function, must raise)"""
    out = collections.OrderedDict()
    if not hasattr(x, "fill"):
        return out
    good = data(ROWS[:3])
    fields = fieldsof(x)

    def add(name, must, d, more=None):
        out[name] = (lambda x, o: x.fill(d, **(more or {})), must)
    for f in fields:
        add("fill without " + f, True, dict((n, v) for n, v in good.items() if n != f))
        add("fill with %s of two dimensions" % f, True, dict(good, **{f: numpy.array([good[f], good[f], good[f]])}))
        add("fill with %s that cannot be converted" % f, True, dict(good, **{f: NoArray()}))
        if len(fields) > 1:
            for n, v in (("short", good[f][:2]), ("long", numpy.concatenate([good[f], good[f][:1]])), ("empty", good[f][:0]), ("list", list(good[f][:2])), ("single", good[f][:1])):
                add("fill with %s %s" % (n, f), True, dict(good, **{f: v}))
        if f != "g":
            add("fill with strings as " + f, False, dict(good, **{f: numpy.array(["a", "b", "c"])}))
            add("fill with None as " + f, False, dict(good, **{f: numpy.array([None, None, None])}))
            add("fill with objects as " + f, False, dict(good, **{f: numpy.array([1.0, "a", None], dtype=object)}))
            add("fill with complex " + f, False, dict(good, **{f: numpy.array([1j, 2j, 3j])}))
            add("fill with lists as " + f, False, dict(good, **{f: [[1], [2, 3], []]}))
        else:
            add("fill with lists as g", False, dict(good, g=[[1], [2, 3], []]))
            add("fill with mixed g", False, dict(good, g=numpy.array(["a", None, 3], dtype=object)))
        add("fill keyword %s short" % f, len(fields) > 1, dict((n, v) for n, v in good.items() if n != f), {f: good[f][:1]})
    for k in range(2 * len(fields) + 2):
        out["fill, access %d fails" % k] = (lambda x, o, k=k: x.fill(Faulty(good, k)), False)
    for n, v in (("number", 3), ("list", [1, 2]), ("string", "abc"), ("set", set("x"))):
        add("fill with a " + n, False, v)
    return out


def badhist(cfg):
    """name -> (function(x, other), must raise); other is a histogram that cannot be combined with x."""
    A = histbook.axis
    b = collections.OrderedDict()

    def add(name, f, must=True):
        b[name] = (f, must)
    for n, v in (("other", None), ("1", 1), ("None", type(None)), ("text", "h"), ("book", Book())):
        val = (lambda o, v=v: o if v is None else (None if v is type(None) else v))
        add("x + " + n, lambda x, o, val=val: x + val(o))
        add("x += " + n, lambda x, o, val=val: x.__iadd__(val(o)))
    add("other + x", lambda x, o: o + x)
    for n, v in (("text", "2"), ("None", None), ("list", [2]), ("hist", "o")):
        add("x * " + n, lambda x, o, v=v: x * (o if v == "o" else v))
        add("x *= " + n, lambda x, o, v=v: x.__imul__(o if v == "o" else v))
    for e in cfg["badselect"] + ["zzz > 1", "x >", "x +", "lambda: x", "x if y else 1", "x.y > 0", "x[0] > 1", "zzz", ""]:
        add("select %r" % e, lambda x, o, e=e: x.select(e))
    for i in ("zzz", 99, -99):
        add("project %r" % i, lambda x, o, i=i: x.project(i))
        add("drop %r" % i, lambda x, o, i=i: x.drop(i))
        add("rebin %r" % i, lambda x, o, i=i: x.rebin(i, [0, 1]))
        add("rebinby %r" % i, lambda x, o, i=i: x.rebinby(i, 2))
        add("axis %r" % i, lambda x, o, i=i: x.axis[i])
        add("groupkeys %r" % i, lambda x, o, i=i: x.groupkeys(i))
    add("table zzz", lambda x, o: x.table("zzz"))
    add("table option", lambda x, o: x.table(nosuchoption=True))
    add("fraction zzz", lambda x, o: x.fraction("zzz"))
    add("fraction option", lambda x, o: x.fraction("y > 1", nosuchoption=True))
    if cfg["rebin"]:
        r = cfg["rebin"]
        for edges in ([0, 0.123, 1], [0.5, 0.7], [-17, 42]):
            add("rebin %r" % edges, lambda x, o, edges=edges: x.rebin(r, edges))
        for edges in ([], [0], "ab", None, ["a", "b"]):
            add("rebin %r" % (edges,), lambda x, o, edges=edges: x.rebin(r, edges), False)
        for k in (0, -1, 1.5, "a", None):
            add("rebinby %r" % k, lambda x, o, k=k: x.rebinby(r, k), False)
    for e in ("x +", "lambda: x", "x[1]", "x if y else 2"):
        add("weight %r" % e, lambda x, o, e=e: x.weight(e))
        add("filter %r" % e, lambda x, o, e=e: x.filter(e))
        add("new with weight %r" % e, lambda x, o, e=e: Hist(*x.axis, weight=e, defs=x.defs, attachment=x.attachment))
        add("new with definition %r" % e, lambda x, o, e=e: Hist(histbook.axis.bin("k", 2, 0, 2), *[mk(s) for s in cfg["specs"]], defs={"k": e}, attachment=x.attachment))
    add("filter x + 1", lambda x, o: x.filter("x + 1"))
    add("group other", lambda x, o: Hist.group(by="s", a=x, b=o))
    add("group other first", lambda x, o: Hist.group(by="s", b=o, a=x))
    add("group 3", lambda x, o: Hist.group(by="s", a=x, b=3))
    add("togroup other", lambda x, o: x.togroup(a=o))
    add("togroup 3", lambda x, o: x.togroup(a=3))
    add("detach", lambda x, o: x.detach("zzz"))
    add("get", lambda x, o: x.get("zzz"))
    add("get many", lambda x, o: x.get("zzz", 1, 2))
    add("index", lambda x, o: x["nosuchkey"])
    add("deep index", lambda x, o: x[0, 0, 0, 0, 0, 0, 0])
    add("option", lambda x, o: Hist(*x.axis, nosuchoption=1))
    add("not an axis", lambda x, o: Hist(*(list(x.axis) + [3])))
    add("fill at once", lambda x, o: Hist(*x.axis, weight="nosuchfield", defs=x.defs, fill=data(ROWS[:2])))
    add("plot zzz", lambda x, o: x.area("zzz"))
    add("plot 99", lambda x, o: x.line(99))
    add("overlay zzz", lambda x, o: x.overlay("zzz"))
    add("to nothing", lambda x, o: x.overlay("x").to(3), False)
    return b


def badbook():
    b = collections.OrderedDict()

    def add(name, f, must=True):
        b[name] = (f, must)
    for n, v in (("other", None), ("1", 1), ("None", type(None)), ("hist", Hist())):
        val = (lambda o, v=v: o if v is None else (None if v is type(None) else v))
        add("x + " + n, lambda x, o, val=val: x + val(o))
        add("x += " + n, lambda x, o, val=val: x.__iadd__(val(o)))
    add("other + x", lambda x, o: o + x)
    for n, v in (("text", "2"), ("None", None), ("list", [2])):
        add("x * " + n, lambda x, o, v=v: x * v)
        add("x *= " + n, lambda x, o, v=v: x.__imul__(v))
    add("set 3", lambda x, o: x.__setitem__("h", 3))
    add("set None", lambda x, o: x.__setitem__("new", None))
    add("set key 3", lambda x, o: x.__setitem__(3, Hist()))
    add("set below a histogram", lambda x, o: x.__setitem__("h/below", Hist()))
    add("set far below a histogram", lambda x, o: x.__setitem__("h/far/below", Hist()))
    add("del missing", lambda x, o: x.__delitem__("zzz"))
    add("del missing path", lambda x, o: x.__delitem__("sub/zzz"))
    add("del below a histogram", lambda x, o: x.__delitem__("h/below"))
    add("del key 3", lambda x, o: x.__delitem__(3))
    add("get missing", lambda x, o: x["zzz"])
    add("get missing path", lambda x, o: x["sub/zzz"])
    add("get key 3", lambda x, o: x[3])
    add("pop missing", lambda x, o: x.pop("zzz"))
    add("update", lambda x, o: x.update({"zzz": 3}))
    add("detach", lambda x, o: x.detach("zzz"))
    add("attachment", lambda x, o: x.get("zzz"))
    add("group other", lambda x, o: Book.group(by="q", a=x, b=o))
    add("group 3", lambda x, o: Book.group(by="q", a=x, b=3))
    add("constructor", lambda x, o: Book(x, 3))
    add("constructor dict", lambda x, o: Book({"a": x, "b": 3}))
    add("systematics", lambda x, o: SystematicsBook({"a": x["h"], "b": 3}))
    add("view", lambda x, o: ChannelsBook({"a": x}).view("zzz"))
    add("inner", lambda x, o: x["h"].select("zzz > 1"))
    return b


# valid operations around the failing one
def op(x, name):
    if name == "fill1":
        for y in ([x] if hasattr(x, "fill") else hists(x)):
            y.fill(data(ROWS[:2]))
    elif name == "fill2":
        for y in ([x] if hasattr(x, "fill") else hists(x)):
            y.fill(data(ROWS[2:5]))
    elif name == "*=":
        x *= 2
    elif name == "clear":
        x.clear()
    elif name == "+=":
        y = x.copy()
        x += y
    elif name == "deferred":
        x.keep = x.copyonfill()
    elif name == "attach":
        x.attach("k", 1)
    elif name == "set":
        if isinstance(x, GenericBook) and not isinstance(x, SystematicsBook):
            x["sub/later"] = Hist(histbook.axis.bin("y", 2, 0, 2))


OPS = ["fill1", "*=", "deferred", "clear"]
AFTER = [["fill2", "+="], ["deferred", "fill2"], ["set", "fill1", "*="]]


def observe_all(x, other):
    out = [snap(x), snap(other)]
    if hasattr(x, "keep"):
        out.append(snap(x.keep))
    if isinstance(x, Hist):
        out += [x.fields, repr(x), [repr(a) for a in x.axis], x.shape, repr(x.defs), x.attachment]
    else:
        out += [x.allkeys(), [type(y).__name__ for y in x.allvalues()], [h.fields for h in hists(x)], x.attachment]
        out += [x.fields] if isinstance(x, Book) else []
    return out


def makehist(c):
    cfg = CONFIGS[c]
    ref = Ref(cfg["specs"], **cfg["opts"])
    x = Hist(*[mk(s) for s in ref.specs], attachment={"k": 0}, **ref.opts())
    o = Hist(histbook.axis.groupby("i"), histbook.axis.bin("x", 5, 0, 2), histbook.axis.cut("w > 1"))
    o.fill(data(ROWS[:4]))
    return x, o


def makebook(kind):
    h = [Ref(cfg["specs"], **cfg["opts"]).hist() for cfg in CONFIGS]
    o = Book({"h": Hist(histbook.axis.bin("x", 5, 0, 2)), "sub/k": h[1].copy()})
    o.fill(data(ROWS[:4]))
    if kind == "flat":
        b = Book({"h": h[0], "k": h[1], "m": h[3]})
    elif kind == "nested":
        b = Book({"h": h[0], "sub/k": h[2], "sub/deep/m": h[4], "sub/deep/n": h[3]})
    elif kind == "alias":
        b = Book({"h": h[0], "sub/k": h[1], "again": h[0]})
    elif kind == "channels":
        b = ChannelsBook({"h": h[0], "sub": Book({"k": h[5]})})
    elif kind == "systematics":
        b = SystematicsBook({"h": h[0].systematic((0,)), "up": h[0].systematic((1,)).copy()})
        o = Book({"h": Hist(histbook.axis.bin("x", 5, 0, 2)), "up": h[1].copy()})
    b.attach("k", 0)
    return b, o


SYSTBAD = collections.OrderedDict([
    ("no systematic", (lambda x, o: x.__setitem__("new", Hist(histbook.axis.bin("x", 2, 0, 2))), True)),
    ("incompatible", (lambda x, o: x.__setitem__("new", Hist(histbook.axis.bin("x", 3, 0, 2), systematic=(1,))), True)),
    ("replace by incompatible", (lambda x, o: x.__setitem__("h", Hist(histbook.axis.bin("x", 3, 0, 2), systematic=(1,))), True)),
    ("nested incompatible", (lambda x, o: x.__setitem__("new/p", Hist(histbook.axis.bin("x", 2, 0, 2), systematic=(1,))), True)),
])

# ------------------------------------------------------------ caller-owned data
FUNCS = "abs arccos arccosh arcsin arcsinh arctan arctanh ceil conj cos cosh deg2rad exp2 exp expm1 floor isfinite isinf isnan log10 log1p log2 log rad2deg rint round sign sinh sin sqrt tanh tan trunc erf erfc gamma lgamma factorial heaviside".split()
FUNCS2 = "arctan2 copysign fmod hypot logaddexp2 logaddexp max min pow mod".split()
EXPRS = ["x", "x + y", "x - y", "x*y", "x/y", "x*2 + 1", "-x", "x**2", "x**y", "(x + y)*(x - y)", "x % y", "x // y", "abs(x - y)", "x*x + y*y", "sqrt(x*x + y*y)", "where(x > 1, x, y)", "where(x > y, x + y, x - y)*x", "1/x", "x + x + y", "max(x, y) + min(x, y)", "x*pi", "y + e", "where(x > 1, pi, x)"]
LOGIC = ["x > 1", "x > 1 and y > 1", "x > 1 or not y > 1", "not x > 1", "x in {0.5, 1.5}", "x + y > 2", "x > y and x*y > 1", "x < pi", "x < inf and y < e"]
VARIANTS = ["plain", "readonly", "strided", "reversed", "shared", "float32", "int64", "uint8", "list", "tuple", "keywords", "mixed", "scalars", "big-endian", "fortran"]


def callerspecs():
    out = []
    A = [["bin", "{}", 2, 0, 2, "UONL"], ["bin", "{}", 2, 0, 2, "___H"], ["bin", "{}", 3, 0.5, 2, "UO_L"], ["split", "{}", [0, 1, 3], "UONL"], ["split", "{}", [0, 1, 3], "___H"], ["split", "{}", [1], "UONL"], ["groupbin", "{}", 1, 0, "NL"], ["groupbin", "{}", 1, 0.5, "_H"], ["groupby", "{}"], ["intbin", "{}", 0, 2, "UO"], ["intbin", "{}", 0, 2, "__"]]

    def put(spec, e):
        return [spec[0], e] + spec[2:]
    for e in EXPRS[:6]:
        for a in A:
            out.append(([put(a, e), ["profile", "x"]], {"weight": "y"}))
    for a in A:
        for b in A:
            out.append(([put(a, "x"), put(b, "x"), ["profile", "x"]], {"weight": "x", "filter": "x > 0.6"}))
    for e in EXPRS + ["%s(x)" % f for f in FUNCS] + ["%s(x, y)" % f for f in FUNCS2]:
        out.append(([["bin", e, 2, 0, 2, "UONL"], ["bin", "x", 2, 0, 2, "UONL"], ["profile", "y"]], {}))
        out.append(([["groupby", e], ["profile", e]], {"weight": "x"}))
        out.append(([["bin", "y", 2, 0, 2, "UONL"], ["profile", "x"], ["profile", e]], {"weight": e}))
    for e in LOGIC:
        out.append(([["cut", e], ["profile", "x"]], {"weight": "y"}))
        out.append(([["bin", "x", 2, 0, 2, "UONL"], ["profile", "y"]], {"filter": e}))
        out.append(([["groupby", "x"], ["cut", e]], {"filter": e, "weight": "x + y"}))
    out.append(([["groupby", "x"], ["groupby", "y"]], {"weight": "y"}))
    return out


VALUES = [(0.5, 2.0), (1.5, 1.0), (2.0, 0.5), (1.0, 1.0), (0.25, 3.0), (7.0, 2.0), (1.5, 4.0)]
INTS = [(0.0, 2.0), (1.0, 1.0), (2.0, 3.0), (1.0, 1.0), (7.0, 2.0)]


def variant(v):
    """(fill arguments, keyword arguments, [owned arrays to watch], reference rows)"""
    vals = INTS if v in ("int64", "uint8") else VALUES
    x, y = numpy.array([a for a, b in vals]), numpy.array([b for a, b in vals])
    watch = [x, y]
    kw = {}
    if v == "strided":
        bx, by = numpy.zeros(2 * len(x)), numpy.zeros(3 * len(x))
        bx[::2], by[1::3] = x, y
        x, y, watch = bx[::2], by[1::3], [bx, by]
    elif v == "reversed":
        bx, by = x[::-1].copy(), y[::-1].copy()
        x, y, watch = bx[::-1], by[::-1], [bx, by]
    elif v == "shared":
        buf = numpy.array([x, y])
        x, y, watch = buf[0], buf[1], [buf]
    elif v == "fortran":
        buf = numpy.array([x, y]).T.copy()
        x, y, watch = buf[:, 0], buf[:, 1], [buf]
    elif v == "float32":
        x, y = x.astype("f4"), y.astype("f4")
        watch = [x, y]
    elif v == "int64":
        x, y = x.astype("i8"), y.astype("i8")
        watch = [x, y]
    elif v == "uint8":
        x, y = x.astype("u1"), y.astype("u1")
        watch = [x, y]
    elif v == "big-endian":
        x, y = x.astype(">f8"), y.astype(">f8")
        watch = [x, y]
    elif v == "list":
        x, y = x.tolist(), y.tolist()
        watch = [x, y]
    elif v == "tuple":
        x, y = tuple(x.tolist()), tuple(y.tolist())
        watch = [x, y]
    elif v == "scalars":
        x, y, vals = numpy.float64(1.5), 1.0, [(1.5, 1.0)]
        watch = []
    if v == "readonly":
        x.flags.writeable = False
        y.flags.writeable = False
    d = {"x": x, "y": y, "unused": numpy.array([1.0])}
    if v == "keywords":
        d, kw = None, d
    elif v == "mixed":
        d, kw = {"x": x, "unused": None}, {"y": y}
    return d, kw, watch, [dict(x=a, y=b) for a, b in vals]


def frozen(w):
    return [(a.tobytes(), a.dtype.str, a.shape) if isinstance(a, numpy.ndarray) else repr(a) for a in w]


class Check(object):
    id = "C14"
    case_timeout = 600
    assumptions = ["the failing call raises a Python exception out of the library (no exhaustion of memory, no interrupt)", "masked arrays are not used as fields", "wildcard deletion inside the nested books of a SystematicsBook is left out"]

    def bounds(self, tier):
        return {"hist_configs": len(CONFIGS), "book_configs": BOOKS, "failing_hist_calls": len(badhist(CONFIGS[0])), "failing_book_calls": len(badbook()), "prefix_depth": 3 if tier == "thorough" else 2,
                "continuations": AFTER, "caller_specs": len(callerspecs()), "array_variants": VARIANTS}

    def cases(self, tier):
        out = [["hist", c, list(p)] for c in range(len(CONFIGS)) for p in self.prefixes(tier)]
        out += [["book", k, list(p)] for k in BOOKS for p in self.prefixes(tier)]
        n = len(callerspecs())
        out += [["caller", i, min(n, i + 4)] for i in range(0, n, 4)]
        out += [["objects", k, None] for k in ("axes", "dicts", "edges", "hists", "plots")]
        return sorted(out, key=core.h64)

    def prefixes(self, tier):
        d = 3 if tier == "thorough" else 2
        return [p for k in range(d + 1) for p in itertools.product(OPS, repeat=k) if not (k and p[0] == "clear")]

    def run(self, case, cx):
        if case[0] == "caller":
            for s in callerspecs()[case[1]:case[2]]:
                self.caller(s, cx)
            return
        if case[0] == "objects":
            return getattr(self, "objects_" + case[1])(cx)
        make = (lambda: makehist(case[1])) if case[0] == "hist" else (lambda: makebook(case[1]))
        prefix = case[2]

        def start():
            x, o = make()
            for p in prefix:
                op(x, p)
            return x, o
        x, o = start()
        bad = collections.OrderedDict(badfills(x))
        bad.update(badhist(CONFIGS[case[1]]) if case[0] == "hist" else badbook())
        if case[1] == "systematics":
            bad.update(SYSTBAD)
        if case[0] == "hist" and not (x.axis and isinstance(x.axis[0], histbook.axis.groupby)):
            pass
        # the twin never gets a failing call
        goods = []
        for after in AFTER:
            y, p = start()
            seq = [observe_all(y, p)]
            for a in after:
                op(y, a)
                seq.append(observe_all(y, p))
            goods.append(seq)
        for n, (name, (f, must)) in enumerate(bad.items()):
            raised = None
            for k, after in enumerate(AFTER):
                if k != n % len(AFTER) and cx.tier == "quick":
                    continue
                x, o = start()
                what = "%s %r after %r: %s" % (case[0], case[1], prefix, name)
                if (n + len(prefix)) % 2:
                    before = observe_all(x, o)           # looking first may or may not matter: both are explored
                ids = [id(a) for a in x.axis] if isinstance(x, Hist) else [id(v) for v in x.allvalues()]
                try:
                    f(x, o)
                except Exception as err:
                    raised = err
                else:
                    if must:
                        raise core.Violation("%s was not refused" % what)
                    cx.count("accepted")
                    break
                cx.step()
                cx.trace()
                if ids != ([id(a) for a in x.axis] if isinstance(x, Hist) else [id(v) for v in x.allvalues()]):
                    raise core.Violation("%s (%r) replaced objects" % (what, raised))
                for m, a in enumerate([None] + after):
                    if a is not None:
                        try:
                            op(x, a)
                        except Exception as err:
                            raise core.Violation("%s (%r): then %s raises %r" % (what, raised, a, err))
                    got = observe_all(x, o)
                    if got != goods[k][m]:
                        d = [(g, w) for g, w in zip(got, goods[k][m]) if g != w]
                        raise core.Violation("%s raised %r, then after %r:\ngot      %r\nexpected %r" % (what, raised, after[:m], d[0][0], d[0][1]))
                cx.state((case, name, k))
                cx.outcome((name, type(raised).__name__))
        cx.sample({"config": case[1], "prefix": prefix, "failing": name})

    # ---- caller-owned data
    def caller(self, s, cx):
        specs, opts = s
        reference = {}
        for v in VARIANTS:
            d, kw, watch, rows = variant(v)
            h = Hist(*[mk(a) for a in specs], **opts)
            other = Hist(*[mk(a) for a in specs], **opts)
            before = frozen(watch)
            keys, ids = (list(d), [id(z) for z in d.values()]) if d is not None else (None, None)
            what = "%r %r filled from %s arrays" % (specs, opts, v)
            try:
                h.fill(d, **kw)
            except (ValueError, TypeError) as err:
                # only a complaint about read-only arrays or the layout would be about the caller's data
                if v in ("int64", "uint8", "scalars") or "plain" not in reference:
                    reference.setdefault("plain", None)
                    if v == "plain" or reference.get("plain") is None or v in ("int64", "uint8"):
                        cx.count("refused")
                        continue
                raise core.Violation("%s: %r" % (what, err))
            cx.step()
            cx.trace()
            if frozen(watch) != before:
                raise core.Violation("%s: the arrays were modified" % what)
            if d is not None and (list(d) != keys or [id(z) for z in d.values()] != ids):
                raise core.Violation("%s: the dict was modified" % what)
            got = snap(h)
            key = "int" if v in ("int64", "uint8") else ("scalar" if v == "scalars" else "plain")
            if key == "scalar":
                other.fill(x=numpy.array([1.5]), y=numpy.array([1.0]))
                if snap(other) != got:
                    raise core.Violation("%s: %r instead of %r" % (what, got, snap(other)))
            elif v == "float32":
                pass           # other rounding
            elif reference.get(key) is None:
                reference[key] = got
            elif reference[key] != got:
                raise core.Violation("%s: %r instead of %r" % (what, got, reference[key]))
            cx.state((repr(s), v))
            cx.outcome(repr(got))
            # the histogram does not hold on to the arrays
            for a in watch:
                if isinstance(a, numpy.ndarray) and v != "readonly":
                    a[...] = 1
                elif isinstance(a, list):
                    a[:] = [9.0]
            if snap(h) != got:
                raise core.Violation("%s: changed with the array after the fill" % what)
            # a second fill from arrays that share memory with the first
            if v in ("readonly", "plain", "strided"):
                d, kw, watch, rows = variant(v)
                before = frozen(watch)
                b = Book({"a": h, "b": other, "c": h.copy(), "d": Hist(histbook.axis.groupby("x"), histbook.axis.profile("x + y"))})
                b.fill(d, **kw)
                if frozen(watch) != before:
                    raise core.Violation("%s, in a book: the arrays were modified" % what)
                twice = Hist(*[mk(a) for a in specs], **opts)
                twice.fill(variant("plain")[0])
                if snap(other) != snap(twice):
                    raise core.Violation("%s, in a book: %r instead of %r" % (what, snap(other), snap(twice)))
                cx.step()
                cx.trace()

    def objects_axes(self, cx):
        """Axis objects stay what they are, in however many histograms (with whatever definitions) they are used."""
        specs = [["bin", "k", 2, 0, 2, "UONL"], ["intbin", "k", 0, 2, "UO"], ["split", "k", [0, 1, 3], "U_NH"], ["cut", "k > 1"], ["groupby", "k"], ["groupbin", "k", 1, 0, "NL"], ["profile", "k"], ["profile", "x + k"]]

        def look(a):
            try:
                keys = repr(a.keys(None)) if not isinstance(a, (histbook.axis.ProfileAxis, histbook.axis.GroupAxis)) else ""
            except Exception:
                keys = ""
            return (repr(a), hash(a), json.dumps(a.tojson()), keys, a.expr)

        for s, t in itertools.product(specs, repeat=2):
            a, b = mk(s), mk(t)
            la, lb = look(a), look(b)

            def fresh(defs):
                h = Hist(mk(s), mk(t), defs=defs)
                h.fill(x=VX, y=VY)
                return snap(h)
            one, two = Hist(a, b, defs={"k": "x"}), Hist(b, a, defs={"k": "y"})
            three = Hist(a, b, defs={"k": "y"}, weight="x")
            two.fill(x=VX, y=VY)
            one.fill(x=VX, y=VY)
            three.fill(x=VX, y=VY)
            cx.step(3)
            cx.trace()
            for h in (one, two, three):
                for f in (lambda: h.project(0), lambda: h.copy(), lambda: h.select("k > 1"), lambda: h.rebinby(0, 2), lambda: h.rebin(0, [0, 2]), lambda: h.drop(-1), lambda: h + h, lambda: Hist.group(by="s", u=h, v=h), lambda: h.weight("y"), lambda: h.table(), lambda: h.tojson()):
                    try:
                        f()
                    except (ValueError, IndexError, TypeError, KeyError, AttributeError):
                        pass
            if look(a) != la or look(b) != lb:
                raise core.Violation("axis objects %r %r changed: %r %r" % (s, t, look(a), look(b)))
            if snap(one) != fresh({"k": "x"}):
                raise core.Violation("%r %r: the axis objects are used in another histogram: %r instead of %r" % (s, t, snap(one), fresh({"k": "x"})))
            h = Hist(a, b, defs={"k": "x*y"})
            h.fill(x=VX, y=VY)
            if snap(h) != fresh({"k": "x*y"}):
                raise core.Violation("%r %r: used again: %r instead of %r" % (s, t, snap(h), fresh({"k": "x*y"})))
            one.fill(x=VX, y=VY)
            g = Hist(mk(s), mk(t), defs={"k": "x"})
            g.fill(x=VX, y=VY)
            g.fill(x=VX, y=VY)
            if snap(one) != snap(g):
                raise core.Violation("%r %r: filled again: %r instead of %r" % (s, t, snap(one), snap(g)))
            cx.state((repr(s), repr(t)))

    def objects_dicts(self, cx):
        A = histbook.axis
        for kind in ("bin", "group"):
            ax = A.bin("k", 2, 0, 2) if kind == "bin" else A.groupby("k")
            defs, att = {"k": "x"}, {"note": 1}
            h = Hist(ax, defs=defs, attachment=att)
            s = snap(h)
            steps = [lambda: h.attach("more", 2), lambda: h.detach("more"), lambda: h.fill(x=VX), lambda: h.weight("x", ), lambda: h.copy().attach("q", 1), lambda: h.cleared().attach("q", 1), lambda: h.copyonfill().attach("q", 1), lambda: h.filter("k > 1").attach("q", 1), lambda: h.systematic((1,)), lambda: (h + h).attach("q", 2), lambda: (h * 2).attach("q", 3), lambda: h.tojson(), lambda: Hist.fromjson(h.tojson()).attach("q", 4)]
            for i, f in enumerate(steps):
                f()
                cx.step()
                if defs != {"k": "x"} or att != {"note": 1}:
                    raise core.Violation("step %d modified the caller's dicts: %r %r" % (i, defs, att))
            s = snap(h)
            f0 = h.fields
            defs["k"] = "y"
            defs["z"] = "1"
            att["note"] = 2
            att["other"] = 3
            if snap(h) != s or h.fields != f0 or h.attachment != {"note": 1}:
                raise core.Violation("changing the caller's dicts changed the histogram: %r" % (h.attachment,))
            h.fill(x=VX)
            cx.trace()
            cx.state(kind)
            # json documents and books
            j = Hist(ax, defs={"k": "x"}, attachment={"a": 1}).tojson()
            text = json.dumps(j, sort_keys=True)
            g = Hist.fromjson(j)
            g.fill(x=VX)
            g.attach("b", 2)
            if json.dumps(j, sort_keys=True) != text:
                raise core.Violation("filling a histogram changed the JSON object it was made from")
            hs = collections.OrderedDict([("a", Hist(ax, defs={"k": "x"})), ("b", Hist(ax, defs={"k": "y"}))])
            for cls in (Book, ChannelsBook, GenericBook):
                ids = [(n, id(v)) for n, v in hs.items()]
                b = cls(hs)
                b["c"] = Hist()
                del b["a"]
                b["b"] = Hist()
                if [(n, id(v)) for n, v in hs.items()] != ids:
                    raise core.Violation("a %s modified the dict it was made from" % cls.__name__)
                hs["later"] = Hist()
                if "later" in b:
                    raise core.Violation("a %s changed with the dict it was made from" % cls.__name__)
                del hs["later"]
                j = b.tojson()
                text = json.dumps(j, sort_keys=True)
                c = GenericBook.fromjson(j)
                c.attach("k", 1)
                c["new"] = Hist()
                del c["c"]
                if json.dumps(j, sort_keys=True) != text:
                    raise core.Violation("a %s modified the JSON object it was made from" % cls.__name__)
                cx.step()

    def objects_edges(self, cx):
        A = histbook.axis
        edges = [0, 1, 3]
        for make in (list, tuple, numpy.array, set):
            e = make(edges)
            was = repr(e)
            a = A.split("x", sorted(e) if make is set else e)
            h = Hist(a)
            h.fill(x=VX)
            s = snap(h)
            if repr(e) != was:
                raise core.Violation("split modified its edges: %s" % was)
            if make in (list, numpy.array):
                e[1] = 2
                if snap(h) != s or repr(a) != repr(A.split("x", edges)):
                    raise core.Violation("split changed with the caller's edges")
                g = Hist(a)
                g.fill(x=VX)
                if snap(g) != s:
                    raise core.Violation("split changed with the caller's edges")
            for mkaxis in (lambda: A.split("x", [0, 1, 2, 3]), lambda: A.bin("x", 3, 0, 3)):
                e = make(edges)
                was = repr(e)
                h = Hist(mkaxis())
                h.fill(x=VX)
                s = snap(h)
                r = h.rebin("x", e)
                t = snap(r)
                if repr(e) != was or snap(h) != s:
                    raise core.Violation("rebin modified its arguments: %s %r" % (was, e))
                if make in (list, numpy.array):
                    e[1] = 2
                    if snap(r) != t:
                        raise core.Violation("the rebinned histogram changed with the caller's edges")
                cx.step(2)
                cx.trace()
            cx.state(str(make))
        # unsorted edges
        e = [3, 0, 1]
        try:
            A.split("x", e)
        except ValueError:
            pass
        if e != [3, 0, 1]:
            raise core.Violation("split sorted the caller's list")

    def objects_hists(self, cx):
        """Operations never modify their operands."""
        for c in range(len(CONFIGS)):
            for filled in itertools.product((False, True), repeat=2):
                x, y = makehist(c)[0], makehist(c)[0]
                for h, f in zip((x, y), filled):
                    if f:
                        h.fill(data(ROWS[:3]))
                sx, sy = snap(x), snap(y)
                axes = [a for a in x.axis if not isinstance(a, histbook.axis.ProfileAxis)]
                for name, f in (("+", lambda: x + y), ("group", lambda: Hist.group(by="s", a=x, b=y)), ("togroup", lambda: Hist.group(by="s", a=x).togroup(b=y)), ("*", lambda: x * 3), ("project", lambda: x.project(*axes[:1])), ("table", lambda: x.table()), ("effcount", lambda: x.table(effcount=True, normalized=True)), ("fraction", lambda: x.fraction(*[a for a in axes if isinstance(a, histbook.axis.cut)])),
                                ("drop", lambda: x.drop("y")), ("eq", lambda: (x == y, x != y, x.compatible(y))), ("json", lambda: x.tojson()), ("str", lambda: (repr(x), str(x))), ("fields", lambda: x.fields), ("book", lambda: Book(a=x, b=y)), ("book +", lambda: Book(a=x) + Book(a=y)), ("book *", lambda: Book(a=x) * 2), ("+= of a copy", lambda: x.copy().__iadd__(y)), ("book += ", lambda: Book(a=x.copy()).__iadd__(Book(a=y, b=x))),
                                ("weight", lambda: x.weight("y")), ("filter", lambda: x.filter("y > 1")), ("keys", lambda: [a.keys(x[()]) if isinstance(a, histbook.axis.GroupAxis) else None for a in axes])):
                    try:
                        f()
                    except (TypeError, ValueError, IndexError, KeyError):
                        pass
                    cx.step()
                    if snap(x) != sx or snap(y) != sy:
                        raise core.Violation("%r filled=%r: %s modified its operands" % (CONFIGS[c]["specs"], filled, name))
                cx.trace()
                cx.state((c, filled))

    def objects_plots(self, cx):
        x, o = makehist(0)
        x.fill(data(ROWS[:3]))
        s = snap(x)
        for f in (lambda: x.bar("x"), lambda: x.step("x", error=True), lambda: x.area("x"), lambda: x.line("x"), lambda: x.marker("x"), lambda: histbook.overlay(x.step("x"), x.marker("x"))):
            spec = f()
            v = spec.vegalite()
            was = repr(v)
            again = spec.vegalite()
            cx.step()
            if snap(x) != s or repr(again) != was:
                raise core.Violation("plotting changed the histogram or the plot")
        cx.trace()
        cx.state("plots")


VX, VY = numpy.array([0.5, 1.5, 2.5, 7.0, 1.0]), numpy.array([1.0, 2.0, 0.5, 0.0, 1.0])
CHECK = Check()
