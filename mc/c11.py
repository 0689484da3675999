"""C11: pickle, deepcopy and JSON (through text) round trips preserve a histogram or book completely.

Explored: every configuration x every history of fills and operations x every kind of round trip inserted at every
point of it. The original goes on without the round trip; after every later step both must show the same."""
import copy
import itertools
import json
import pickle

from mc.ref import *
from mc.c02 import used
from mc.c10 import snap
from histbook.book import GenericBook, SamplesBook, ChannelsBook, SystematicsBook, ViewBook

TRIPS = {
    "pickle0": lambda x: pickle.loads(pickle.dumps(x, 0)),
    "pickle2": lambda x: pickle.loads(pickle.dumps(x, 2)),
    "pickle": lambda x: pickle.loads(pickle.dumps(x, pickle.HIGHEST_PROTOCOL)),
    "deepcopy": copy.deepcopy,
    "json": lambda x: type(x).fromjson(x.tojson()),
    "jsontext": lambda x: type(x).fromjson(json.loads(json.dumps(x.tojson()))),
    "twice": lambda x: pickle.loads(pickle.dumps(type(x).fromjson(json.loads(json.dumps(x.tojson()))))),
}

WEIGHTS = [{}, {"weight": "w"}, {"weight": 2}, {"weight": 0.5}, {"filter": "w > 0"}, {"filter": "w > 0 and not w > 2", "weight": "w*q", "defs": {"q": "1 + abs(w)"}}, {"weight": "q", "defs": {"q": "w", "r": "2*w"}}]
NUMROWS = [{"x": v, "y": y, "w": w, "g": g, "n": n, "b": b} for v, y, w, g, n, b in [
    (0.5, 1.0, 1.0, "a", 1.0, True), (1.5, 0.1, 0.5, "b", 2.0, False), (NAN, 2.0, 3.0, "a", 0.5, True), (-1.0, -1.5, 1.0, "", -1.0, True), (INF, 0.25, 2.0, "c d", 1.0, False),
    (-INF, 7.0, 1.0, "b", 3.0, False), (2.0, 1.0 / 3, 0.1, u"\u00e9", 1e300, True), (0.0, 3.0, 1.5, "1", 0.0, False)]]
FIRST, SECOND = NUMROWS[:4], NUMROWS[3:]


def configs(tier):
    out = []
    for f in BINFLAGS:
        out.append(([["bin", "x", 2, 0, 2, f]], 0))
        out.append(([["split", "x", [0, 0.1, 2], f]], 0))
    for f in INTFLAGS:
        out.append(([["intbin", "where(x > 1, 3, 1)", 0, 2, f]], 1))
    for f in GBFLAGS:
        out.append(([["groupbin", "x", 1, 0, f]], 0))
        out.append(([["groupbin", "y", 0.1, 0.05, f], ["profile", "y"]], 1))
    mixed = [
        [["groupby", "g"]], [["groupby", "n"]], [["groupby", "b"]], [["groupby", "n"], ["groupby", "g"]], [["groupby", "g"], ["groupby", "b"], ["groupbin", "x", 1, 0.5, "NH"]],
        [["groupbin", "y", 0.1, 0, "NL"], ["groupby", "n"], ["bin", "x", 3, 0.1, 0.7, "UONL"], ["profile", "y"]],
        [["cut", "x > 1"], ["profile", "y"], ["profile", "x*y"]], [["profile", "w"]], [["bin", "sqrt(abs(y)) + x**2", 2, 0, 3, "UONL"], ["cut", "b"]],
        [["groupby", "b"], ["cut", "x > 0 or y < 0"], ["split", "y", [0], "UO_L"]], [["split", "x", [1.0 / 3, 0.7], "UONL"], ["intbin", "where(y > 1, 5, 0)", 0, 1, "UO"], ["groupby", "g"]],
    ]
    for m in mixed:
        for w in range(len(WEIGHTS)):
            out.append((m, w))
    for w in range(1, len(WEIGHTS)):
        out.append(([["bin", "x", 2, 0, 2, "UONL"]], w))
        out.append(([["groupbin", "x", 1, 0, "NL"], ["profile", "y"]], w))
    return out


ATTACH = [None, {"k": 1}, {"fit": {"a": [1, 2.5, None, True], "b": {"c": "d"}}, "systematic": (1, -0.5)}]

OPS = ["fill1", "fill2", "fill0", "*=", "clear", "attach"]


def fillwith(h, rows):
    data = columns(rows, ["x", "y", "w", "g", "n", "b"])
    if not rows:
        data["g"] = numpy.array([], dtype="U1")
    h.fill(data)


def apply(h, op):
    if op == "fill1":
        fillwith(h, FIRST)
    elif op == "fill2":
        fillwith(h, SECOND)
    elif op == "fill0":
        fillwith(h, [])
    elif op == "*=":
        h *= 0.1
    elif op == "clear":
        h.clear()
    elif op == "attach":
        h.attach("new", [1, "x"])
    else:
        raise AssertionError(op)


def probes(h):
    """Later operations on both sides: results as snapshots."""
    out = [snap(h.copy()), snap(h + h.copy()), snap(2 * h), snap(h.cleared())]
    if isinstance(h, Hist):
        out.append(sorted(h.fields))
        bins = [a for a in h.axis if not isinstance(a, histbook.axis.ProfileAxis)]
        for k in range(len(bins) + 1):
            out.append(snap(h.project(*bins[:k])))
        for a in h.axis:
            if isinstance(a, histbook.axis.ProfileAxis):
                out.append(snap(h.drop(a)))
            elif isinstance(a, histbook.axis.groupby):
                out.append(sorted(map(repr, h.groupkeys(a))))
                out.append(snap(h.select("%s != %r" % (a.expr, "a" if a.expr == "g" else 1))))
            elif isinstance(a, (histbook.axis.groupbin, histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
                out.append(snap(h.rebinby(a, 2)))
            elif isinstance(a, histbook.axis.cut):
                out.append(snap(h.select(a.expr)))
        if h.axis and isinstance(h.axis[0], (histbook.axis.bin, histbook.axis.split)) and h.axis[0].closedlow:
            out.append(snap(h.select("%s >= %r" % (h.axis[0].expr, h.axis[0].low))))
    else:
        out.append(sorted(h.allkeys()))
        if hasattr(h, "fields"):
            out.append(h.fields)
    return out


def same(a, b):
    """Snapshots contain bytes of arrays (exact), reprs and names."""
    return a == b


class Check(object):
    id = "C11"
    case_timeout = 300
    assumptions = ["expressions, definitions and attachments are JSON values (strings and numbers; the systematic vector is a tuple or list of numbers)", "groupby keys are strings, numbers or booleans"]

    def bounds(self, tier):
        return {"configs": len(configs(tier)), "round_trips": sorted(TRIPS), "history_depth": 3 if tier == "thorough" else 2, "ops": OPS, "attachments": len(ATTACH)}

    def cases(self, tier):
        out = [["hist", specs, w, a] for n, (specs, w) in enumerate(configs(tier)) for a in (range(len(ATTACH)) if tier == "thorough" else [n % len(ATTACH)])]
        out += [["book", k, w, 0] for k in ("Book", "ChannelsBook", "SamplesBook", "SystematicsBook", "ViewBook", "nested") for w in range(len(WEIGHTS))]
        return sorted(out, key=core.h64)

    def make(self, case):
        kind, specs, w, a = case
        if kind == "hist":
            ref = Ref(specs, **WEIGHTS[w])
            h = Hist(*[mk(s) for s in ref.specs], attachment=ATTACH[a], **ref.opts())
            return h

        def h(s, **kw):
            return Hist(*[mk(q) for q in s], **dict(WEIGHTS[w], **kw))
        one, two = [["bin", "x", 2, 0, 2, "UONL"]], [["groupby", "n"], ["groupbin", "y", 0.1, 0, "NL"], ["profile", "x"]]
        k = specs
        if k == "Book":
            b = Book({"a": h(one, attachment={"k": 2}), "b": h(two)})
        elif k == "nested":
            b = Book({"z": h(two), "sub/a": h(one), "sub/deep/b": h(two), "ch": ChannelsBook({"q": h(one), "sy": SystematicsBook(u=h(one, systematic=(0,)), d=h(one, systematic=[1]))}), "empty": Book()})
            b["sub"].attach("k", [1, 2])
        elif k == "ChannelsBook":
            b = ChannelsBook({"c1": Book({"a": h(one), "b": h(two)}), "c2": h(two)})
        elif k == "SamplesBook":
            b = SamplesBook(["mc", "data"], {"a": h(one), "b": h(two)})
        elif k == "SystematicsBook":
            b = SystematicsBook(nominal=h(one, systematic=(0, 0)), up=h(one, systematic=(1, 0)))
        elif k == "ViewBook":
            b = ChannelsBook({"c1": Book({"a": h(one), "b": h(two)}), "c2": Book({"a": h(one)})}).view("*/a")
        b.attach("info", {"x": [1, None]})
        return b

    def run(self, case, cx):
        depth = 3 if cx.tier == "thorough" else 2
        isbook = case[0] == "book"

        def fillable(x):
            return isinstance(x, (Hist, Book))

        def do(x, op):
            if isbook and op.startswith("fill") and not isinstance(x, Book):
                for y in x.values(recursive=True, onlyhist=True):
                    apply(y, op)
            else:
                apply(x, op)

        ops = OPS if not isbook else ["fill1", "fill2", "*=", "attach"]
        for hist in itertools.chain.from_iterable(itertools.product(ops, repeat=k) for k in range(depth + 1)):
            x = self.make(case)
            for op in hist:
                do(x, op)
            before = snap(x)
            wasrepr = repr(x.tojson())
            cx.state((case, hist))
            px = None
            trips = sorted(TRIPS)
            if len(hist) == depth and cx.tier == "quick":
                trips = [t for n, t in enumerate(trips) if (n + core.h64(hist)) % 3 == 0]
            for t in trips:
                y = TRIPS[t](x)
                what = "%r %s after %r" % (case, t, hist)
                cx.step()
                cx.trace()
                if not (x == y and y == x) or x != y or type(x) is not type(y):
                    raise core.Violation("%s: not equal\n%r\n%r" % (what, x.tojson(), y.tojson()))
                if snap(y) != before or snap(x) != before or repr(x.tojson()) != wasrepr:
                    raise core.Violation("%s: shows something else\n%r\n%r" % (what, before, snap(y)))
                if x.attachment != y.attachment or repr(sorted(x.attachment.items())) != repr(sorted(y.attachment.items())):
                    raise core.Violation("%s: attachments %r %r" % (what, x.attachment, y.attachment))
                if not isbook:
                    if list(x.axis) != list(y.axis) or x.defs != y.defs or repr(x) != repr(y) or x.shape != y.shape:
                        raise core.Violation("%s: %r is not %r" % (what, y, x))
                elif x.allkeys() != y.allkeys() or [type(q) for q in x.allvalues()] != [type(q) for q in y.allvalues()]:
                    raise core.Violation("%s: %r is not %r" % (what, y.allkeys(), x.allkeys()))
                if px is None and (len(hist) < depth or cx.tier == "thorough"):
                    px = probes(x)
                py = probes(y) if px is not None else None
                if px != py:
                    raise core.Violation("%s: later operations differ\n%r" % (what, [(p, q) for p, q in zip(px, py) if p != q][:1]))
                # the restored one and an original that never made the trip go on in the same way
                z = self.make(case)
                for op in hist:
                    do(z, op)
                for op in ("fill2", "fill1"):
                    do(y, op)
                    do(z, op)
                    cx.step(2)
                    if snap(y) != snap(z):
                        raise core.Violation("%s then %s: differs\n%r\n%r" % (what, op, snap(z), snap(y)))
                if snap(x + y) != snap(x + z) or snap(y + x) != snap(z + x):
                    raise core.Violation("%s: sums differ" % what)
                if snap(x) != before:
                    raise core.Violation("%s: the original changed when the restored one was filled" % what)
                cx.outcome(repr(snap(y)))
        cx.sample({"case": case})


CHECK = Check()
