"""C21: axes and histograms describe themselves faithfully.

axis      every axis of a universe (kind x every flag combination x several binnings x two expressions): options, representation, copies, relabelled
          axes, numbers of bins, slices, keys and items agree with the specification; invalid options are refused
pairs     every ordered pair of the universe: equal (and hash alike) exactly if kind and all options agree, compatible exactly if all but the expression agree
interval  every ordered pair and triple of keys: ordering by position with NaN last, consistent with equality and hashing, representations evaluate
hist      every axis mixture x weight mode x fill state: order of axes, shape, lookup by position, spelling, kind and every subset of options; fields;
          direct indexing; group keys; representation; attachments
compatible  every pair of histograms with these mixtures, other expressions, other orders, one axis more or less: compatible exactly if kinds and binning agree
equal     every pair of a pool of histograms (axis mixture x weight x filter x definitions x attachments x data): equal exactly if all of these agree"""
import itertools

from mc.ref import *
from mc.c02 import spread, used
import histbook.axis as A

E1, E2 = "x", "x + y"


def universe():
    out = []
    for e in (E1, E2):
        for f in BINFLAGS:
            for n, lo, hi in ((2, 0, 2), (3, 0, 2), (2, -1, 2), (2, 0, 3)):
                out.append(["bin", e, n, lo, hi, f])
            for es in ([0, 1], [0, 2], [0, 1, 2], [-1, 1]):
                out.append(["split", e, es, f])
        for f in INTFLAGS:
            for lo, hi in ((0, 2), (0, 1), (-1, 2), (2, 2)):
                out.append(["intbin", e, lo, hi, f])
        for f in GBFLAGS:
            for bw, org in ((1, 0), (2, 0), (1, 0.5), (0.5, 0)):
                out.append(["groupbin", e, bw, org, f])
        out += [["groupby", e], ["cut", e], ["profile", e], ["groupby", e + " > 1"], ["cut", e + " > 1"], ["cut", e + ">1"]]
    return out


def optionsof(spec):
    """Public attributes of an axis of this specification."""
    k = spec[0]
    o = {"expr": spec[1]}
    f = flags_of(spec) if k in ("bin", "split", "intbin", "groupbin") else ""
    if k in ("bin", "split", "intbin"):
        o.update(underflow="U" in f, overflow="O" in f)
    if k in ("bin", "split", "groupbin"):
        o.update(nanflow="N" in f, closedlow="L" in f)
    if k == "bin":
        o.update(numbins=spec[2], low=spec[3], high=spec[4])
    elif k == "split":
        o.update(edges=tuple(spec[2]), low=spec[2][0], high=spec[2][-1], numbins=len(spec[2]) - 1)
    elif k == "intbin":
        o.update(min=spec[2], max=spec[3], numbins=spec[3] - spec[2] + 1, binwidth=1)
    elif k == "groupbin":
        o.update(binwidth=spec[2], origin=spec[3])
    elif k == "cut":
        o.update(numbins=2)
    return o


REFUSED = [
    ("bin", ("x", -1, 0, 1)), ("bin", ("x", 1.5, 0, 1)), ("bin", ("x", "2", 0, 1)), ("bin", ("x", 2, "0", 1)), ("bin", ("x", 2, 0, None)), ("bin", ("x", 2, 1, 0)), ("bin", ("x", 2, 1, 1)),
    ("intbin", ("x", 0.5, 2)), ("intbin", ("x", 0, "2")), ("intbin", ("x", 3, 1)), ("split", ("x", [])), ("split", ("x", ["a"])), ("split", ("x", [0, "1"])), ("split", ("x", ["0", 1])), ("split", ("x", [0, None])), ("split", ("x", "1")), ("split", ("x", [0, float("nan")])), ("split", ("x", [0, 0])),
    ("groupbin", ("x", 0)), ("groupbin", ("x", -1)), ("groupbin", ("x", "1")), ("groupbin", ("x", 1, "0")),
    ("bin", ("x", 2, float("nan"), 1)), ("bin", ("x", 2, 0, float("nan"))), ("bin", ("x", 2, float("-inf"), 1)), ("bin", ("x", 2, 0, float("inf"))),
    ("groupbin", ("x", float("inf"))), ("groupbin", ("x", float("nan"))), ("groupbin", ("x", 1, float("nan"))), ("groupbin", ("x", 1, float("inf"))),
]
BADFLAGS = [("bin", ("x", 2, 0, 1), ("underflow", "overflow", "nanflow", "closedlow")), ("split", ("x", [0, 1]), ("underflow", "overflow", "nanflow", "closedlow")), ("intbin", ("x", 0, 1), ("underflow", "overflow")),
            ("groupbin", ("x", 1), ("nanflow", "closedlow"))]

MIXES = [
    [["bin", "x", 2, 0, 2, "UONL"]], [["split", "x", [0, 1, 3], "U__H"]], [["intbin", "i", 0, 2, "_O"]], [["cut", "p"]], [["groupby", "g"]], [["groupbin", "z", 2, 0, "NL"]],
    [["bin", "x", 2, 0, 2, "UONL"], ["bin", "x", 3, 0, 2, "UONL"], ["split", "x", [0, 1], "UONL"]],
    [["bin", "x", 2, 0, 2, "UONL"], ["cut", "x > 1"], ["profile", "x"], ["groupbin", "x", 1, 0, "NL"]],
    [["profile", "y"], ["cut", "p"], ["groupby", "g"], ["bin", "x + y", 2, 0, 2, "__NL"], ["groupbin", "z", 2, 0, "NL"]],
    [["groupby", "g"], ["groupby", "k"], ["groupbin", "z", 1, 0.5, "_H"]],
    [["groupby", "g"], ["intbin", "i", 0, 1, "UO"], ["split", "x*y", [0, 2], "_O_L"], ["profile", "y"], ["profile", "x + y"]],
    [["bin", "x", 2, 0, 2, "UONL"], ["bin", "x", 2, 0, 2, "UO_L"], ["bin", "x", 2, 0, 2, "U_NH"]],
    [["cut", "p"], ["cut", "not p"], ["cut", "x > 1 and p"]],
    [["bin", "d", 2, 0, 2, "UONL"], ["profile", "d*2"]],
    [["profile", "y"]],
]
WEIGHTS = [{}, {"weight": "w"}, {"filter": "x > 0"}, {"weight": "w*k2", "filter": "p or x > 0", "defs": {"k2": "1 + i"}}, {"weight": 2.5}]
DEFS = {"d": "x + y"}
VALS = {"x": [0.5, 1.5, -1.0, 7.0, NAN], "y": [0.5, -2.0], "z": [0.5, 2.5, -3.0, NAN], "i": [0.0, 1.0, 5.0], "g": ["a", "bb", "c"], "k": ["u", "v"], "w": [0.5, 3.0], "p": [True, False]}
SPELL = {"x": ["x", "(x)", "x + 0", "1*x"], "x + y": ["x + y", "y + x", "x - -y", "y + 1*x"], "x*y": ["x*y", "y*x"], "x > 1": ["x > 1", "1 < x", "not x <= 1"], "d": ["d", "x + y", "y + x"], "d*2": ["d*2", "2*d", "2*x + 2*y", "2*(y + x)"],
         "x > 1 and p": ["x > 1 and p", "p and 1 < x"], "not p": ["not p", "not not not p"], "p": ["p", "not not p", "p or p"]}
ABSENT = ["q", "x + 1", "x*2", "x - y", "x < 1", "x >= 1", "y*y"]


class Check(object):
    id = "C21"
    case_timeout = 300
    assumptions = ["axis equality compares the text of expressions (lookup compares their meaning)", "expressions are strings", "the named constants pi, e, inf and nan may be listed among the fields although they need not be given",
                   "an axis with the same expression and kind as another one is told apart by its options, or found by position"]

    def bounds(self, tier):
        return {"axes": len(universe()), "pairs": len(universe()) ** 2, "histograms": len(MIXES), "weights": len(WEIGHTS), "option_subsets": "all of up to 2 options, and all options together"}

    def cases(self, tier):
        n = len(universe())
        out = [["axis", i] for i in range(0, n, 20)] + [["pairs", i] for i in range(0, n, 10)]
        out += [["interval", i] for i in range(8)] + [["refused", 0]]
        out += [["hist", m, w, f] for m in range(len(MIXES)) for w in range(len(WEIGHTS)) for f in range(5)]
        out += [["equal", m] for m in range(len(MIXES))] + [["compatible", i] for i in range(3*len(MIXES))]
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        getattr(self, case[0])(case, cx)

    # ------------------------------------------------------------------ single axes
    def axis(self, case, cx):
        for spec in universe()[case[1]:case[1] + 20]:
            a = mk(spec)
            cx.step()
            cx.state(spec)
            self.describes(a, spec, spec)
            for way, b in (("copy()", a.copy()), ("its representation", eval(repr(a), vars(A))), ("JSON", A.Axis.fromjson(json_text(a.tojson())))):
                cx.step()
                cx.trace()
                if b is a or b != a or not b == a or hash(b) != hash(a):
                    raise core.Violation("%r from %s is %r" % (spec, way, b))
                self.describes(b, spec, (spec, way))
            r = a.relabel("zz*2")
            self.describes(r, [spec[0], "zz*2"] + spec[2:], (spec, "relabelled"))
            if spec[0] != "profile" and not (r.compatible(a) and a.compatible(r)):
                raise core.Violation("%r is not compatible with itself relabelled" % spec)
            if r == a or not r != a:
                raise core.Violation("%r equals itself relabelled" % spec)
            self.describes(a, spec, (spec, "after relabelling"))
            # the same axis with all options spelled as keywords or as numpy scalars
            if spec[0] == "bin":
                f = flags_of(spec)
                b = A.bin(spec[1], numpy.int64(spec[2]), numpy.float64(spec[3]), numpy.float64(spec[4]), underflow=numpy.bool_("U" in f), overflow="O" in f, nanflow="N" in f, closedlow=numpy.bool_("L" in f))
                if a != b or hash(a) != hash(b):
                    raise core.Violation("%r made with numpy numbers is %r" % (spec, b))
            # conversions keep the bins
            if spec[0] == "bin" and [obskey(k) for k in a.split().keys()] != refkeys(spec):
                raise core.Violation("%r.split() has keys %r" % (spec, a.split().keys()))
            if spec[0] == "intbin":
                f = flags_of(spec)
                want = refkeys(["bin", spec[1], spec[3] - spec[2] + 1, spec[2] - 0.5, spec[3] + 0.5, ("U" if "U" in f else "_") + ("O" if "O" in f else "_") + "_L"])
                for b in (a.bin(), a.split()):
                    if [obskey(k) for k in b.keys()] != want:
                        raise core.Violation("%r as %r has keys %r, expected %r" % (spec, b, b.keys(), want))
        cx.sample({"axis": spec, "repr": repr(a)})

    def describes(self, a, spec, what):
        if type(a).__name__ != spec[0]:
            raise core.Violation("%r is %r" % (what, a))
        for n, v in optionsof(spec).items():
            got = getattr(a, n)
            got = tuple(got) if n == "edges" else got
            if got != v:
                raise core.Violation("%r: %s is %r, expected %r" % (what, n, got, v))
        if isfixed(spec):
            keys = refkeys(spec)
            total = len(keys)
            if a.totbins != total:
                raise core.Violation("%r: totbins is %r, expected %r" % (what, a.totbins, total))
            if [obskey(k) for k in a.keys()] != keys:
                raise core.Violation("%r: keys are %r, expected %r" % (what, a.keys(), keys))
            content = list(range(100, 100 + total))
            items = list(a.items(content))
            if [obskey(k) for k, _ in items] != keys or [v for _, v in items] != content:
                raise core.Violation("%r: items are %r" % (what, items))
            finite = [i for i, k in enumerate(keys) if k[0] != "NaN" and not (k[0] == "I" and (math.isinf(k[1]) or math.isinf(k[2]))) and k not in (("u",), ("o",))] if spec[0] in ("bin", "split") else None
            if finite is not None and list(range(total))[a.finiteslice] != finite:
                raise core.Violation("%r: finiteslice is %r, expected %r" % (what, a.finiteslice, finite))
            if spec[0] == "intbin":
                u = int("U" in flags_of(spec))
                if list(range(total))[a.finiteslice] != list(range(u, u + spec[3] - spec[2] + 1)):
                    raise core.Violation("%r: finiteslice is %r" % (what, a.finiteslice))
            if spec[0] == "cut" and list(range(2))[a.finiteslice] != [0, 1]:
                raise core.Violation("%r: finiteslice is %r" % (what, a.finiteslice))
            if spec[0] == "bin" and not close(a.binwidth, (spec[4] - spec[3]) / float(spec[2])):
                raise core.Violation("%r: binwidth is %r" % (what, a.binwidth))
            if spec[0] == "split":
                for i in range(len(spec[2]) - 1):
                    if not close(a.binwidth(i), spec[2][i + 1] - spec[2][i]):
                        raise core.Violation("%r: binwidth(%d) is %r" % (what, i, a.binwidth(i)))
        if spec[0] == "groupbin":
            content = {}
            for n, v in enumerate((3 * spec[2] + spec[3], -1 * spec[2] + spec[3], float(spec[3]))):
                content[float(v)] = n
            if "N" in flags_of(spec):
                content["NaN"] = 9
            want = [[refkey(spec, k + spec[2] / 2.0), content[k]] for k in sorted(k for k in content if k != "NaN")] + ([[("NaN",), 9]] if "NaN" in content else [])
            if [[obskey(k), v] for k, v in a.items(content)] != want or [obskey(k) for k in a.keys(content)] != [w[0] for w in want]:
                raise core.Violation("%r: items of %r are %r, expected %r" % (what, content, a.items(content), want))
        if spec[0] == "groupby":
            content = {"b": 1, "a": 2, "": 3}
            if [tuple(z) for z in a.items(content)] != [("", 3), ("a", 2), ("b", 1)] or list(a.keys(content)) != ["", "a", "b"]:
                raise core.Violation("%r: items are %r" % (what, a.items(content)))

    def pairs(self, case, cx):
        u = universe()
        for s in u[case[1]:case[1] + 10]:
            a = mk(s)
            for t in u:
                b = mk(t)
                same = s == t
                cx.step()
                if (a == b) is not same or (a != b) is same:
                    raise core.Violation("%r == %r is %r" % (s, t, a == b))
                if same and hash(a) != hash(b):
                    raise core.Violation("equal axes %r hash differently" % s)
                if s[0] != "profile":
                    comp = s[0] == t[0] and s[2:] == t[2:]
                    if bool(a.compatible(b)) is not comp:
                        raise core.Violation("%r compatible with %r is %r" % (s, t, a.compatible(b)))
                    if t[0] != "profile":
                        # histograms of these axes
                        h, g = Hist(a), Hist(b)
                        if bool(h.compatible(g)) is not comp:
                            raise core.Violation("histograms of %r and %r: compatible is %r" % (s, t, h.compatible(g)))
                        if (h == g) is not same:
                            raise core.Violation("histograms of %r and %r: equal is %r" % (s, t, h == g))
            cx.trace()
            cx.state(s)
            for z in (None, "x", 3, s[1], object()):
                if a == z or not a != z:
                    raise core.Violation("%r equals %r" % (s, z))
            if len(set(mk(t) for t in u if t[:2] == s[:2])) != len([t for t in u if t[:2] == s[:2]]):
                raise core.Violation("a set of axes like %r lost some of them" % s)
        cx.sample({"axis": s, "against": len(u)})

    def interval(self, case, cx):
        ks = []
        for spec in universe():
            if spec[1] == E1 and spec[0] in ("bin", "split"):
                for k in mk(spec).keys():
                    ks.append(k)
        uniq = []
        for k in ks:
            if not any(k == z for z in uniq):
                uniq.append(k)
        by = dict((k, n) for n, k in enumerate(uniq))
        if len(by) != len(uniq):
            raise core.Violation("different intervals are the same dict key")
        for k in ks:
            if by.get(k) is None or not (uniq[by[k]] == k and hash(uniq[by[k]]) == hash(k)):
                raise core.Violation("%r is not found as a dict key" % k)
        # the same interval made of other types of numbers
        for k in uniq[case[1]::8]:
            if obskey(k)[0] != "I":
                continue
            lo, hi, cl, ch = k.low, k.high, k.closedlow, k.closedhigh
            for tl, th in itertools.product((float, int, numpy.float64, numpy.int64, numpy.float32), repeat=2):
                if math.isinf(lo) and tl in (int, numpy.int64) or math.isinf(hi) and th in (int, numpy.int64) or tl(lo) != lo or th(hi) != hi:
                    continue
                z = A.Interval(tl(lo), th(hi), closedlow=cl, closedhigh=ch)
                cx.step()
                if not (z == k and k == z) or z != k or hash(z) != hash(k) or by.get(z) != by[k] or z < k or z > k or not z <= k or not z >= k:
                    raise core.Violation("%r made of %s and %s does not behave like %r" % (z, tl.__name__, th.__name__, k))
        env = dict(vars(A), inf=float('inf'), nan=float('nan'))
        mine = uniq[case[1]::8]
        for a in mine:
            e = eval(repr(a), env)
            cx.step()
            cx.state(repr(a))
            if not (e == a and hash(e) == hash(a) and repr(e) == repr(a)):
                raise core.Violation("%r evaluates to %r" % (a, e))
            ka = obskey(a)
            if ka[0] == "I":
                s = str(a)
                want = ("[" if ka[3] else "(", "]" if ka[4] else ")")
                if s[0] != want[0] or s[-1] != want[1] or not all(close(float(z), t, 1e-5) for z, t in zip(s[1:-1].split(","), ka[1:3])):
                    raise core.Violation("%r is shown as %s" % (a, s))
            for b in uniq:
                kb = obskey(b)
                cx.step()
                same = ka == kb
                if (a == b) is not same or (a != b) is same or (same and hash(a) != hash(b)):
                    raise core.Violation("%r == %r is %r" % (a, b, a == b))
                if ka[0] == "I" and kb[0] == "I" and ka[1] != kb[1]:
                    below = ka[1] < kb[1]
                elif ka[0] != kb[0]:
                    below = kb[0] == "NaN"
                else:
                    continue
                if bool(a < b) is not below or bool(a > b) is below or bool(a <= b) is not below or bool(a >= b) is below:
                    raise core.Violation("%r and %r are ordered wrongly: < %r > %r <= %r >= %r" % (a, b, a < b, a > b, a <= b, a >= b))
            cx.trace()
        # the keys of every axis are sorted by their own ordering
        for spec in universe():
            if spec[0] in ("bin", "split"):
                keys = list(mk(spec).keys())
                for perm in (keys, keys[::-1], keys[1:] + keys[:1]):
                    if [obskey(k) for k in sorted(perm)] != refkeys(spec):
                        raise core.Violation("sorted keys of %r are %r" % (spec, sorted(perm)))

    def refused(self, case, cx):
        for kind, args in REFUSED:
            cx.step()
            cx.state((kind, args))
            try:
                a = getattr(A, kind)(*args)
            except (TypeError, ValueError):
                continue
            raise core.Violation("%s%r was accepted: %r" % (kind, args, a))
        for kind, args, flags in BADFLAGS:
            for f in flags:
                for v in (1, 0, None, "yes"):
                    cx.step()
                    try:
                        a = getattr(A, kind)(*args, **{f: v})
                    except TypeError:
                        continue
                    raise core.Violation("%s%r with %s=%r was accepted: %r" % (kind, args, f, v, a))
        # histograms and books
        b = lambda e="x": A.bin(e, 2, 0, 2)
        for what, f in (
                ("an unknown option of Hist", lambda: Hist(b(), wieght="w")),
                ("an unknown option of Hist next to a known one", lambda: Hist(b(), weight="w", filters="x > 0")),
                ("two unknown options of an unfilled Hist without axes", lambda: Hist(weights="w", Filter="x > 0")),
                ("a filter which is not logical", lambda: Hist(b(), filter="x + 1")),
                ("a filter which is not logical", lambda: Hist(b(), filter="2", weight="w")),
                ("a filter which is a number", lambda: Hist(b(), filter="x*y", defs={"y": "2"})),
                ("an array for a histogram with two axes", lambda: Hist(b(), b("y"), fill=numpy.array([1.0]))),
                ("an array for a histogram with an axis and a profile", lambda: Hist(b(), A.profile("y"), fill=numpy.array([1.0]))),
                ("two systematics", lambda: Hist(b(), systematic=(1,), attachment={"systematic": (0,)})),
                ("two defaults", lambda: Hist(b()).get("a", 1, 2)),
                ("two defaults for an attachment there is", lambda: Hist(b()).attach("a", 3).get("a", 1, 2)),
                ("two defaults of a book", lambda: Book().get("a", 1, 2)),
                ("two defaults of a book for an attachment there is", lambda: Book().attach("a", 3).get("a", 1, 2))):
            cx.step()
            try:
                out = f()
            except (TypeError, ValueError):
                continue
            raise core.Violation("%s was accepted: %r" % (what, out))
        for thing in (Hist(b()), Book()):
            for missing in (lambda: thing.get("a"), lambda: thing.detach("a")):
                try:
                    out = missing()
                except KeyError:
                    cx.step()
                    continue
                raise core.Violation("%r: %r for an attachment there is not" % (thing, out))
            if thing.has("a") or thing.get("a", 5) != 5 or thing.attach("a", None) is not thing or not thing.has("a") or thing.get("a") is not None or thing.get("a", 5) is not None or thing.attachment != {"a": None} or thing.detach("a") is not thing or thing.has("a"):
                raise core.Violation("%r: attachments are not kept as given" % (thing,))
        # an axis without any bins
        for kind, args in (("bin", ("x", 0, 1, 1)), ("split", ("x", [1]))):
            try:
                getattr(A, kind)(*args, underflow=False, overflow=False, nanflow=False)
            except ValueError:
                cx.step()
                continue
            raise core.Violation("%s%r without any bins was accepted" % (kind, args))

    # ------------------------------------------------------------------ histograms
    def hist(self, case, cx):
        _, m, w, fill = case
        opts = dict(WEIGHTS[w])
        defs = dict(DEFS, **opts.pop("defs", {}))
        ref = Ref(MIXES[m], defs=defs, **opts)
        h = ref.hist()
        order = [s for s in MIXES[m] if isgroup(s)] + [s for s in MIXES[m] if isfixed(s)] + [s for s in MIXES[m] if s[0] == "profile"]
        bare = dict((k, v) for k, v in defs.items())
        needed = set()
        for e in [s[1] for s in order] + [z for z in (opts.get("weight"), opts.get("filter")) if isinstance(z, str)]:
            names = namesin(e)
            while names & set(bare):
                names = set().union(*[namesin(bare[n]) if n in bare else {n} for n in names])
            needed |= names
        if sorted(needed) != list(h.fields):
            raise core.Violation("%r %r: fields are %r, expected %r" % (order, opts, h.fields, sorted(needed)))
        other = dict((f, VALS[f][0]) for f in VALS)         # only for definitions which are not used
        rows = spread([dict(other, **dict(zip(sorted(needed), t))) for t in itertools.product(*[VALS[f] for f in sorted(needed)])], 40)
        data = columns(rows, sorted(needed))
        # exactly the fields are needed
        for f in sorted(needed):
            try:
                ref.hist().fill(dict((n, c) for n, c in data.items() if n != f))
            except ValueError:
                cx.step()
            else:
                raise core.Violation("%r %r can be filled without the field %r" % (order, opts, f))
        if fill == 1:
            h.fill(columns([], sorted(needed)))
            rows = []
        elif fill == 2:
            h.fill(data)
        elif fill == 3:
            h.fill(data)
            h.fill(data)
            rows = rows + rows
        elif fill == 4:
            # few rows one at a time: the group keys below one key differ from those below another
            rows = spread(rows, 5)
            for r in rows:
                h.fill(columns([r], sorted(needed)))
        else:
            rows = []
        cx.step()
        cx.state(case)
        for what, g in (("the histogram", h), ("its copy", h.copy()), ("its representation", eval(repr(h), dict(vars(A), Hist=Hist))), ("the text of it", eval(str(h), dict(vars(A), Hist=Hist)))):
            self.axes(g, order, opts, defs, (case, what), cx)
        e = eval(repr(h), dict(vars(A), Hist=Hist))
        if e != h.cleared():
            raise core.Violation("%r is not its representation %r" % (order, h))
        # the text shows weight, filter and definitions
        self.content(h, ref, order, rows, cx)
        # attachments
        if h.attachment != {} or h.has("a"):
            raise core.Violation("a new histogram has attachments")
        r = h.attach("a", 1).attach("b", [2])
        if r is not h or not h.has("a") or h.get("a") != 1 or h.get("b") != [2] or h.get("c", 5) != 5 or h.get("a", 5) != 1 or h.attachment != {"a": 1, "b": [2]}:
            raise core.Violation("attachments are %r" % h.attachment)
        if h.detach("a") is not h or h.has("a") or h.get("a", None) is not None or h.attachment != {"b": [2]}:
            raise core.Violation("attachments are %r after detaching" % h.attachment)
        for f in (lambda: h.get("a"), lambda: h.detach("a")):
            try:
                f()
            except KeyError:
                continue
            raise core.Violation("a missing attachment was found")
        cx.sample({"axes": order, "fields": h.fields})

    def equal(self, case, cx):
        """Equal exactly if axes, weight, filter, definitions, contents and attachments agree."""
        pool = []
        for m in (case[1], (case[1] + 1) % len(MIXES)):
            fields = sorted(VALS)
            allrows = spread([dict(zip(fields, t)) for t in itertools.product(*[VALS[f] for f in fields])], 24)
            datas = [None, allrows[:1], allrows, allrows[:-1], allrows[::-1]]
            # one more row in each of the bins met: contents that differ in one bin only
            datas += [allrows + [r] for r in allrows[::4]]
            for opts in WEIGHTS + [{"weight": "x"}, {"weight": 3}, {"filter": "x > 1"}, {"filter": "p", "weight": "w"}]:
                for defs in (DEFS, {"d": "x + y", "unused": "x"}):
                    opts2 = dict(opts)
                    d = dict(defs, **opts2.pop("defs", {}))
                    for att in ({}, {"a": 1}, {"a": 2}, {"b": 1}) if defs is DEFS and opts in WEIGHTS[:2] else ({},):
                        for n, rows in enumerate(datas if defs is DEFS else datas[:3]):
                            if att and n > 2:
                                continue
                            ref = Ref(MIXES[m], defs=d, **opts2)
                            h = ref.hist()
                            if rows is not None:
                                h.fill(columns(rows, fields))
                                ref.fill(rows)
                            for k, v in att.items():
                                h.attach(k, v)
                            pool.append(((m, repr(sorted(opts2.items())), repr(sorted(d.items())), repr(att)), n, None if rows is None else ref.stats(), h))
                            cx.state((m, opts, d, att, n))
        for i, (spec, n, stats, h) in enumerate(pool):
            for other in (None, 1, "x", h.axis, object()):
                if h == other or not h != other:
                    raise core.Violation("%r equals %r" % (h, other))
            if not (h == h and h == h.copy() and not h != h.copy()):
                raise core.Violation("%r is not equal to itself or its copy" % (h,))
            for spec2, n2, stats2, g in pool[i + 1:]:
                cx.step()
                if spec != spec2:
                    same = False
                elif (stats is None) != (stats2 is None):
                    if not (stats or stats2):
                        continue        # whether nothing filled is the same as an empty fill is left open
                    same = False
                else:
                    if n == n2:
                        raise AssertionError
                    if stats is None or any(set(a) != set(b) or any(not close(x, y, 1e-6) for k in a for x, y in zip(a[k], b[k])) for a, b in ((stats, stats2),)):
                        same = False
                    else:
                        continue
                if (h == g) is not same or (g == h) is not same or (h != g) is same:
                    raise core.Violation("%r filled with data %d and %r filled with data %d: equal is %r and %r, different is %r" % (h, n, g, n2, h == g, g == h, h != g))
        cx.trace(len(pool))

    def compatible(self, case, cx):
        """Compatible exactly if the group and fixed axes have the same kinds and binning, whatever the expressions, profiles, weights and contents."""
        def shape(m):
            return [[s[0]] + s[2:] for s in m if isgroup(s)] + [[s[0]] + s[2:] for s in m if isfixed(s)]

        pool = [(m, o) for m in MIXES for o in ({}, {"weight": "w"}, {"filter": "x > 0"})]
        pool += [([[s[0], "y"] + s[2:] for s in m], {}) for m in MIXES] + [(m[::-1], {}) for m in MIXES] + [(m + [["profile", "z"]], {}) for m in MIXES] + [(m[:-1], {}) for m in MIXES] + [(m + m[-1:], {}) for m in MIXES]
        pool = [(m, o, Ref(m, defs=DEFS, **o).hist()) for m, o in pool if m]
        fields = sorted(VALS)
        pool[case[1]][2].fill(columns(spread([dict(zip(fields, t)) for t in itertools.product(*[VALS[f] for f in fields])], 24), fields))
        m, o, h = pool[case[1]]
        for other in (None, 1, "x", h.axis, Book()):
            if h.compatible(other) is not False:
                raise core.Violation("%r is compatible with %r" % (h, other))
        for m2, o2, g in pool:
            cx.step()
            same = shape(m) == shape(m2)
            if h.compatible(g) is not same or g.compatible(h) is not same:
                raise core.Violation("%r and %r: compatible is %r and %r" % (h, g, h.compatible(g), g.compatible(h)))
        cx.trace()
        cx.state((m, o))

    def axes(self, h, order, opts, defs, what, cx):
        ax = h.axis
        if len(ax) != len(order):
            raise core.Violation("%r: axes are %r" % (what, ax))
        for i, s in enumerate(order):
            self.describes(ax[i], s, (what, i))
            if ax[i - len(order)] is not ax[i] or ax[numpy.int64(i)] is not ax[i]:
                raise core.Violation("%r: axis %d is not found by position" % (what, i))
            first = [t for t in order if meaning(t[1]) == meaning(s[1])][0]
            kind = [t for t in order if t[0] == s[0] and meaning(t[1]) == meaning(s[1])]
            for e in SPELL.get(s[1], [s[1]]):
                cx.step()
                if ax[e] is not ax[order.index(first)]:
                    raise core.Violation("%r: axis[%r] is %r" % (what, e, ax[e]))
                got = getattr(ax, s[0])(e)
                if got is not ax[order.index(kind[0])]:
                    raise core.Violation("%r: axis.%s(%r) is %r" % (what, s[0], e, got))
                o = optionsof(s)
                o.pop("expr")
                names = sorted(o)
                subsets = [()] + list(itertools.combinations(names, 1)) + list(itertools.combinations(names, 2)) + [tuple(names)]
                for sub in subsets if e == s[1] else subsets[-1:]:
                    kw = dict((n, o[n]) for n in sub)
                    if "edges" in kw:
                        kw["edges"] = ax[i].edges
                    want = [t for t in kind if all(optionsof(t)[n] == o[n] for n in sub)][0]
                    cx.step()
                    got = getattr(ax, s[0])(e, **kw)
                    if got is not ax[order.index(want)]:
                        raise core.Violation("%r: axis.%s(%r, **%r) is %r" % (what, s[0], e, kw, got))
                    for n in sub:
                        if n == "edges":
                            continue
                        v = (not o[n]) if isinstance(o[n], bool) else o[n] + 17
                        if any(optionsof(t).get(n) == v and all(optionsof(t)[z] == o[z] for z in sub if z != n) for t in kind):
                            continue
                        self.absent(lambda: getattr(ax, s[0])(e, **dict(kw, **{n: v})), (what, s[0], e, n, v))
            for k in ("groupby", "groupbin", "bin", "intbin", "split", "cut", "profile"):
                if not any(t[0] == k and meaning(t[1]) == meaning(s[1]) for t in order):
                    self.absent(lambda: getattr(ax, k)(s[1]), (what, k, s[1]))
            self.absent(lambda: getattr(ax, s[0])(s[1], nonsense=1), (what, s[0], "nonsense"))
        for e in ABSENT:
            if not any(meaning(e) == meaning(t[1]) for t in order):
                self.absent(lambda: ax[e], (what, e))
        self.absent(lambda: ax[len(order)], (what, "position"))
        shape = tuple(len(refkeys(s)) for s in order if isfixed(s)) + (2 * len([s for s in order if s[0] == "profile"]) + (2 if opts else 1),)
        if tuple(h.shape) != shape:
            raise core.Violation("%r: shape is %r, expected %r" % (what, h.shape, shape))
        if dict(h.defs) != defs:
            raise core.Violation("%r: definitions are %r" % (what, h.defs))
        cx.trace()

    def absent(self, f, what):
        try:
            got = f()
        except IndexError:
            return
        raise core.Violation("%r: found %r" % (what, got))

    def content(self, h, ref, order, rows, cx):
        groups = [s for s in order if isgroup(s)]
        model = ref.with_rows([(r, 1) for r in rows])
        # keys present: every key of an accepted row; keys of rows dropped by a later axis may be there, too
        for gi, s in enumerate(groups):
            must, may = set(), set()
            for r in rows:
                k = refkey(s, pyeval(s[1], withdefs(ref.defs, r)))
                if k is None:
                    continue
                may.add(k)
                if model.locate(r) is not None and model.rowweight(r):
                    must.add(k)
            for name in [h.axis[gi], gi] + ([s[1]] if [meaning(t[1]) for t in order].index(meaning(s[1])) == gi else []):
                keys = h.groupkeys(name)
                got = set(("NaN",) if k == "NaN" and s[0] == "groupbin" else refkey(s, k + s[2] / 2.0) if s[0] == "groupbin" else ("g", k) if not isinstance(k, tuple) else k for k in keys)
                cx.step()
                got = set(k if k[0] != "g" else refkey(s, k[1]) for k in got)
                if not (must <= got <= may):
                    raise core.Violation("%r: groupkeys(%r) is %r, expected %r to %r" % (order, name, keys, must, may))
        for s in order:
            if not isgroup(s):
                try:
                    h.groupkeys(h.axis[order.index(s)])
                except IndexError:
                    continue
                raise core.Violation("%r: groupkeys of %r" % (order, s))
        # direct indexing walks the group keys, then the array
        node = h
        if not groups:
            arr = numpy.array([h[i] for i in range(h.shape[0])])
            if tuple(arr.shape) != tuple(h.shape):
                raise core.Violation("%r: indexing gives shape %r" % (order, arr.shape))
            if len(h.shape) > 1 and not (h[0, -1] == arr[0][-1]).all():
                raise core.Violation("%r: indexing by a tuple differs" % (order,))
        else:
            for k in h.groupkeys(0):
                if not isinstance(h[k], (dict, numpy.ndarray)):
                    raise core.Violation("%r: %r gives %r" % (order, k, h[k]))
                if len(groups) > 1:
                    for k2 in h[k]:
                        if h[k, k2] is not h[k][k2]:
                            raise core.Violation("%r: indexing by a tuple differs" % (order,))
            try:
                h["no such key"]
            except KeyError:
                pass
            else:
                raise core.Violation("%r: a missing key was found" % (order,))
        cx.trace()


def meaning(e):
    for k, v in SPELL.items():
        if e in v and not (k == "x + y" or e in SPELL["x + y"]):
            return k
    return "x + y" if e in SPELL["x + y"] or e == "d" else e


def namesin(e):
    import ast
    return set(n.id for n in ast.walk(ast.parse(e, mode="eval")) if isinstance(n, ast.Name))


def json_text(x):
    import json
    return json.loads(json.dumps(x))


CHECK = Check()
