"""C09: rebinning equals filling with the coarser binning."""
import bisect
import itertools

from mc.ref import *
from mc.c02 import spread, used

G, GZ, CP, BZ, SZ = ["groupby", "g"], ["groupbin", "z", 2, 0, "NL"], ["cut", "p"], ["bin", "z", 2, 0, 4, "UONL"], ["split", "z", [0, 2], "___L"]
CONTEXTS = [([], []), ([G], []), ([CP], []), ([], [BZ]), ([SZ], [CP]), ([G, BZ], [CP])]
EXTRAS = [([], {}), ([["profile", "y"]], {"weight": "w"}), ([], {"filter": "p"}), ([["profile", "y"]], {}), ([["profile", "y"]], {"weight": "w", "filter": "p", "defs": {"v": "x", "u": "z"}})]


def targets(tier):
    out = []
    for f in BINFLAGS:
        out.append(["bin", "x", 4, 0, 4, f])
        out.append(["split", "x", [-1, 0, 2, 5], f])
    for f in INTFLAGS:
        out.append(["intbin", "x", 0, 3, f])
    for f in GBFLAGS:
        out.append(["groupbin", "x", 1, 0, f])
    out += [["groupbin", "x", 0.5, 0.25, "NL"], ["groupbin", "x", 0.1, 0, "NL"], ["groupbin", "x", 0.1, 0.05, "NH"], ["bin", "x", 10, 0, 1, "UONL"], ["bin", "x", 3, 0.1, 0.7, "_O_L"],
            ["bin", "x", 0, 1, 1, "UONL"], ["bin", "x", 1, 0, 1, "U__L"], ["split", "x", [3], "UO_H"], ["intbin", "x", -1, 5, "UO"], ["bin", "x", 5, -1, 9, "UONL"]]
    if tier == "thorough":
        out += [["bin", "x", 6, 0, 3, "UONL"], ["split", "x", [-4, -1, 0, 2, 5, 9], "UONL"], ["split", "x", [-4, -1, 0, 2, 5, 9], "_ONH"], ["intbin", "x", 0, 6, "_O"]]
    return out


def alledges(spec):
    """Edges of the bins between the flow bins, as the library publishes them."""
    if spec[0] == "intbin":
        return [i - 0.5 for i in range(spec[2], spec[3] + 2)]
    if spec[0] == "split":
        return [float(e) for e in spec[2]]
    if spec[2] == 0:
        return [float(spec[3])]
    keys = [k for k in mk(spec).keys() if not isinstance(k, histbook.axis.IntervalNaN) and not math.isinf(k.low) and not math.isinf(k.high)]
    return [float(k.low) for k in keys] + [float(spec[4])]


def coarse(spec, edges):
    f = flags_of(spec)
    if spec[0] == "intbin":
        f = f + "_L"
    return ["split", spec[1], sorted(edges), f]


def values(spec):
    if spec[0] == "groupbin":
        bw, o = spec[2], spec[3]
        out = [o + bw * (i + 0.375) for i in (-7, -4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 11)] + [INF, -INF, NAN]
        if bw in (1, 0.5):
            out += [o + bw * i for i in (-2, -1, 0, 1, 2, 4)]
        return out
    if spec[0] == "intbin":
        return [float(v) for v in range(spec[2] - 2, spec[3] + 3)] + [INF, -INF, 1000.0]
    e = alledges(spec)
    out = [a + (b - a) * 0.375 for a, b in zip(e[:-1], e[1:])] + [e[0] - 1, e[-1] + 1, INF, -INF, NAN]
    if spec[0] == "split" or all(v * 16 == int(v * 16) for v in e):
        out += e
    return out


class Check(object):
    id = "C09"
    case_timeout = 400
    assumptions = ["values on an edge only where edge arithmetic is exact in binary", "edges are given as the library publishes them in the axis keys (exact comparison)",
                   "the type of the rebinned axis is not part of the property, its keys are"]

    def bounds(self, tier):
        return {"axes": len(targets(tier)), "contexts": len(CONTEXTS), "profiles_weights": len(EXTRAS), "edges": "every non-empty subset (thorough: also every nested second subset)", "factors": "1..number of bins + 2, and chains of two",
                "sizes": "1..78 bins (by every factor up to 40 bins), and around 100, 128, 256, 512", "rejected": "every foreign edge, factor and axis of an alphabet"}

    def cases(self, tier):
        out = []
        for t, c, e in itertools.product(targets(tier), range(len(CONTEXTS)), range(len(EXTRAS))):
            if e == 4:
                if c > 1 and tier == "quick":
                    continue
                t = [t[0], "v"] + t[2:]      # the axis is given by a definition
            if tier == "quick" and (c + e + core.h64(t)) % 2 and c:
                continue
            out.append([t, c, e])
        return out + [["many", kind, lo] for kind in ("bin", "intbin", "split", "groupbin") for lo in range(1, 75, 6)] + [["many", kind, n] for kind in ("bin", "intbin", "split", "groupbin") for n in (99, 125, 253, 509)]

    def many(self, case, cx):
        """axes of many sizes: a row (of its own weight) in every bin and beyond; by every factor, and to every n-th edge from any start"""
        kind = case[1]
        for n in range(case[2], case[2] + 6):
            if kind == "bin":
                axis, edges = histbook.axis.bin("x", n, 0, n), [float(i) for i in range(n + 1)]
            elif kind == "intbin":
                axis, edges = histbook.axis.intbin("x", 0, n - 1), [i - 0.5 for i in range(n + 1)]
            elif kind == "split":
                edges = [float(i * i) for i in range(n + 1)]
                axis = histbook.axis.split("x", edges)
            else:
                axis, edges = histbook.axis.groupbin("x", 1), [float(i) for i in range(n + 1)]
            xs = [(a + b) / 2 for a, b in zip(edges[:-1], edges[1:])]
            flows = [edges[0] - 3, edges[-1] + 5]
            h = Hist(axis, weight="w")
            h.fill(x=numpy.array(xs + flows), w=numpy.arange(1.0, n + 3))
            factors = range(1, n + 3) if n <= 40 else [1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 33, n // 2, n - 1, n, n + 1]
            todo = [("rebinby %d" % f, lambda f=f: h.rebinby("x", f), edges[:-1][::f] + edges[-1:], f) for f in factors]
            if kind != "groupbin":
                for f in factors[:12]:
                    for start in sorted(set((0, 1, f - 1, n // 2))):
                        some = edges[start::f]
                        if some:
                            todo.append(("rebin to edges[%d::%d]" % (start, f), lambda some=some: h.rebin("x", some), some, None))
                for a, b in sorted(set([(0, 1), (0, 2), (0, 3), (n - 2, n + 1), (n - 1, n + 1), (n, n + 1), (n // 2, n // 2 + 1), (n // 2, n // 2 + 3), (n // 3, n // 3 + 2), (1, n), (1, n - 1), (0, n - 1)])):
                    some = edges[max(a, 0):b]
                    if some:
                        todo.append(("rebin to edges[%d:%d]" % (a, b), lambda some=some: h.rebin("x", some), some, None))
            for what, fn, want, f in todo:
                g = fn()
                cx.step()
                cx.trace()
                cx.state((case, n, what))
                got = dict((k[0], c[0]) for k, c in observe(g).items())
                exp = {}
                for j, x in enumerate(xs + flows):
                    if kind == "groupbin":
                        lo = math.floor(x / f) * f
                        key = I(float(lo), float(lo + f), True, False)
                    elif x < want[0]:
                        key = I(-INF, want[0], True, False)
                    elif x >= want[-1]:
                        key = I(want[-1], INF, True, True)
                    else:
                        k = bisect.bisect_right(want, x)
                        key = I(want[k - 1], want[k], True, False)
                    exp[key] = exp.get(key, 0) + j + 1.0
                if got != exp:
                    bad = sorted(((k, got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)), key=repr)
                    raise core.Violation("%s axis with %d bins, %s\n(bin, got, expected): %r" % (kind, n, what, bad[:6]))

    def run(self, case, cx):
        if case[0] == "many":
            return self.many(case, cx)
        t, c, e = case
        before, after = CONTEXTS[c]
        profs, opts = EXTRAS[e]
        ref = Ref(before + [t] + after + profs, **opts)
        fields = used(ref)
        others = {"z": [0.5, 2.5, -3.0, NAN], "g": ["a", "bb"], "p": [True, False], "y": [0.5, -2.0], "w": [0.5, 3.0]}
        xs = values(t)
        combos = [dict(zip([f for f in fields if f != "x"], q)) for q in itertools.product(*[others[f] for f in fields if f != "x"])]
        rows = [dict(spread(combos, 7)[j % min(7, len(combos))], x=v) for j, v in enumerate(xs * 2)]
        if c and len(combos) > 1:
            rows += [dict(combos[(3 * j + 1) % len(combos)], x=v) for j, v in enumerate(xs)]
        late = rows[::5]
        h = ref.hist()
        empty = ref.hist()
        h.fill(columns(rows, fields))
        ref.fill(rows)
        start = check_equal(h, ref, "before rebinning")
        ti = [s is t or s == t for s in ref.specs].index(True)

        def newref(spec, base=ref):
            r = Ref([spec if i == ti else s for i, s in enumerate(base.specs)], **opts)
            r.rows = list(base.rows)
            return r

        def check(g, r, what):
            cx.step()
            cx.trace()
            obs = observe(g)
            cx.state((case, what))
            cx.outcome(obshash(obs))
            d = diff(obs, r.expected())
            if d is None and isfixed(t):
                got, want = [obskey(k) for k in g.axis[ti].keys()], refkeys(r.specs[ti])
                if got != want:
                    d = "keys %r expected %r" % (got, want)
            if d is not None:
                raise core.Violation("%r %r\n%s\n%s" % (ref.specs, opts, what, d))

        style = [lambda: mk(t), lambda: "x", lambda: ti] if t[1] == "x" else [lambda: "v", lambda: "x", lambda: "v + 0"]

        def refused(exc, fn, what):
            cx.step()
            try:
                fn()
            except exc:
                return
            raise core.Violation("%r %r: %s was not refused with %s" % (ref.specs, opts, what, exc))

        n = 0
        if t[0] != "groupbin":
            E = alledges(t)
            flow = any(z in "UON" for z in flags_of(t))
            subsets = list(itertools.chain.from_iterable(itertools.combinations(E, k) for k in range(1, len(E) + 1)))
            if len(E) > 7 and cx.tier == "quick":
                subsets = [s for s in subsets if len(s) in (1, 2, len(E) - 1, len(E))]
            for s in subsets:
                arg = style[n % 3]()
                edges = [list(s), tuple(s)[::-1], numpy.array(s), iter(list(s))][n % 4]
                n += 1
                if len(s) == 1 and not flow:
                    refused(ValueError, lambda: h.rebin(arg, edges), "rebin to nothing")
                    continue
                what = "rebin(%r, %r)" % (arg, s)
                g = h.rebin(arg, edges)
                r = newref(coarse(t, s))
                check(g, r, what)
                check(empty.rebin(style[n % 3](), list(s)), r.with_rows([]), "unfilled " + what)
                nested = list(itertools.chain.from_iterable(itertools.combinations(s, k) for k in range(1, len(s))))
                if cx.tier == "quick":
                    nested = nested[n % 5::5]
                for s2 in nested:
                    if len(s2) == 1 and not flow:
                        continue
                    check(g.rebin("x", s2), newref(coarse(t, s2)), what + " rebin %r" % (s2,))
                if n % 4 == 0:
                    g.fill(columns(late, fields))
                    r.fill(late)
                    check(g, r, what + " then filled")
            for bad in ([E[0] + 0.3001], [E[0], E[-1] + 100.0], [E[0] - 0.001], E + [17.25], [NAN], []):
                refused((ValueError, TypeError), lambda: h.rebin("x", bad), "rebin to %r" % (bad,))
            factors = range(1, len(E) + 2)

            def byfactor(spec, f):
                ee = alledges(spec)
                return coarse(spec, ee[:-1][::f] + ee[-1:])
        else:
            factors = [1, 2, 3, 5]

            def byfactor(spec, f):
                return ["groupbin", spec[1], spec[2] * f, spec[3], spec[4]]
            refused(IndexError, lambda: h.rebin("x", [0, 1]), "rebin of a groupbin axis")

        for f in factors:
            arg = style[n % 3]()
            n += 1
            what = "rebinby(%r, %r)" % (arg, f)
            if t[0] != "groupbin" and len(alledges(t)) == 1 and not flow:
                continue
            g = h.rebinby(arg, f if n % 2 else numpy.int64(f))
            r = newref(byfactor(t, f))
            check(g, r, what)
            check(empty.rebinby(style[n % 3](), f), r.with_rows([]), "unfilled " + what)
            for f2 in (2, 3):
                spec2 = byfactor(r.specs[ti], f2) if t[0] == "groupbin" else coarse(t, sorted(r.specs[ti][2])[:-1][::f2] + sorted(r.specs[ti][2])[-1:])
                check(g.rebinby("x", f2), newref(spec2), what + " rebinby %r" % f2)
            g.fill(columns(late, fields))
            r.fill(late)
            check(g, r, what + " then filled")
        for bad in (0, -1, 1.5, "2", None):
            refused(TypeError, lambda: h.rebinby("x", bad), "rebinby %r" % (bad,))
        for axis in ["q", "x + 1", 99, mk(["bin", "x", 17, 0, 1, "UONL"])] + [mk(s) for s in ref.specs if s[0] in ("cut", "groupby", "profile")]:
            refused(IndexError, lambda: h.rebinby(axis, 2), "rebinby of axis %r" % (axis,))
            refused(IndexError, lambda: h.rebin(axis, [0]), "rebin of axis %r" % (axis,))
        d = diff(observe(h), start)
        if d is not None:
            raise core.Violation("rebinning changed the original\n" + d)
        cx.sample({"axis": t, "context": [before, after], "rows": len(rows)})


CHECK = Check()
