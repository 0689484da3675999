"""C01: every value lands in exactly the bin whose published key contains it."""
import itertools
import math

from mc.ref import *

EPS = 2.0 ** -20
HUGE = [1e9, 2.0 ** 31 - 1, 2.0 ** 31, 2.0 ** 31 + 1, 3e9, 2.0 ** 32, 2.0 ** 32 + 1, 2.0 ** 40, 2.0 ** 62, 2 ** 63 - 1, 2.0 ** 63, 1e19, 1e300]
SPECIAL = [INF, -INF, NAN, -0.0]
DTYPES = ["float64", "float32", "float16", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool"]


def specs(tier):
    out = []
    for n, lo, hi in [(1, 0, 1), (2, 0, 2), (4, -1, 1), (3, -1.5, 1.5), (5, 0, 10), (1, -4, -2), (8, 100, 108), (10, 0, 1), (3, 0.1, 0.7), (0, 1, 1), (3100, 0, 100)]:
        for f in BINFLAGS:
            if n == 0 and f[:3] == "___":
                continue
            out.append(["bin", "x", n, lo, hi, f])
    for edges in [[0], [0, 1], [-1, 0, 4], [0.5, 1, 2.5, 3], [0.1, 0.2, 0.30000000000000004], [-2.5, -1, 7, 100], [1e-300, 1, 1e300]]:
        for f in BINFLAGS:
            if len(edges) == 1 and f[:3] == "___":
                continue
            out.append(["split", "x", edges, f])
    for lo, hi in [(0, 0), (0, 3), (-2, 1), (5, 7), (-9, -8), (250, 300), (1000, 1001)]:
        for f in INTFLAGS:
            out.append(["intbin", "x", lo, hi, f])
    for bw, org in [(1, 0), (0.5, 0), (2, 1), (4, -1), (0.25, 0.125), (0.1, 0), (10, 3)]:
        for f in GBFLAGS:
            out.append(["groupbin", "x", bw, org, f])
    out.append(["groupby", "x"])
    out.append(["groupby", "s"])
    for e in ["x > 0", "x >= 1", "x == 0", "not x < 2", "0 <= x < 3", "x in {0, 2}", "p", "not p"]:
        out.append(["cut", e])
    return out


def large(tier):
    out = []
    for n in (130, 260, 33000, 66000):
        for f in ("UONL", "___L", "_O_H"):
            out.append(["large", ["bin", "x", n, 0, n, f]])
            out.append(["large", ["intbin", "x", -3, n, f[:2]]])
        if n < 1000:
            out.append(["large", ["split", "x", [float(i) for i in range(n)], "UONL"]])
    return out + [["large", ["groupbin", "x", 1, 0, "NL"]], ["large", ["groupby", "x"]]]


def dyadic(x):
    return x * 2 ** 12 == int(x * 2 ** 12)


def alphabet(spec):
    """Finite values for this axis, on and around every edge, then huge and special ones."""
    k = spec[0]
    vals = []
    if k == "bin" or k == "split":
        e = edges_of(spec)
        if len(e) > 12:
            e = e[:3] + e[1500:1503] + e[-3:]
            if k == "bin":
                vals += [97.0, 3.0, 5.0, 99.0]
        exact = k == "split" or (all(map(dyadic, e)) and dyadic(spec[2] / (spec[4] - spec[3]) if spec[4] != spec[3] else 1))
        for x in e:
            if exact:
                vals.append(x)
                if k == "split":
                    vals += [float(numpy.nextafter(x, -INF)), float(numpy.nextafter(x, INF))]
                else:
                    vals += [x - EPS, x + EPS]
            elif k == "bin":
                vals += [x - 1e-9, x + 1e-9]
        for a, b in zip(e[:-1], e[1:]):
            vals.append(a + (b - a) * 0.375)
        vals += [e[0] - 1, e[-1] + 1, e[0] - 100, e[-1] + 100]
        if exact or k == "split":
            vals += [0.0, 1.0, 2.0, 3.0, -1.0]
    elif k == "intbin":
        vals += [float(v) for v in range(spec[2] - 2, min(spec[2] + 3, spec[3]) + 1)] + [float(v) for v in range(max(spec[2], spec[3] - 2), spec[3] + 3)] + [0.0, 127.0, -128.0, 255.0, 65535.0]
    elif k == "groupbin":
        bw, org = spec[2], spec[3]
        for i in (-3, -1, 0, 1, 2, 5):
            v = org + bw * i
            if dyadic(bw) and dyadic(1 / bw):
                vals += [v, v - EPS, v + EPS]
            else:
                vals += [v - 1e-9, v + 1e-9]
            vals.append(v + bw * 0.375)
        vals += [100.0, 127.0, 90.0, 1000.0] if dyadic(bw) and dyadic(1 / bw) else []
    elif k == "groupby" and spec[1] == "s":
        return ["a", "b", "", "ab", "B", " a"]
    elif k == "groupby":
        vals += [0.0, 1.0, -1.0, 0.5, 2.0, 127.0, 1e300]
    elif k == "cut":
        if "p" in spec[1]:
            return [True, False]
        vals += [-1.0, 0.0, 0.5, 1.0, 2.0, 3.0, 2.0 - EPS, 2.0 + EPS, 100.0]
    if k == "groupbin":
        vals += [2.0 ** 31, 2.0 ** 40, -2.0 ** 31, INF, -INF, NAN, -0.0] if dyadic(bw) and dyadic(1 / bw) else [INF, -INF, NAN]
    elif k == "cut":
        vals += [INF, -INF, 1e300] + ([NAN] if "not" not in spec[1] else [])
    elif k != "groupby":
        vals += HUGE + [-v for v in HUGE] + SPECIAL
    out, seen = [], set()
    for v in vals:
        if repr(v) not in seen:
            seen.add(repr(v))
            out.append(v)
    return out


def representable(vals, dt):
    out = []
    for v in vals:
        if dt == "bool":
            if v in (0.0, 1.0) and not (v == 0 and math.copysign(1, v) < 0):
                out.append(v)
            continue
        if dt.startswith("int") or dt.startswith("uint"):
            if v != v or math.isinf(v) or v != int(v):
                continue
            info = numpy.iinfo(dt)
            if not int(info.min) <= int(v) <= int(info.max):
                continue
            out.append(v)
        else:
            with numpy.errstate(all="ignore"):
                w = float(numpy.array([v], dtype=dt)[0])
            if w == v or v != v:
                out.append(v)
    return out


def asarray(vals, dt):
    if dt.startswith("int") or dt.startswith("uint"):
        return numpy.array([int(v) for v in vals], dtype=dt)
    return numpy.array(vals, dtype=dt)


class Check(object):
    id = "C01"
    case_timeout = 240
    assumptions = ["values exactly on (or within rounding of) an edge are only used where the edge arithmetic is exact in binary; otherwise values at 1e-9 from the edges",
                   "intbin axes are filled with integers, infinities and NaN; groupby axes never with NaN; split edges are finite",
                   "PyPy 3.9 and numpy 1.22 of this sandbox"]

    def bounds(self, tier):
        return {"axis_specs": len(specs(tier)), "large_axes": len(large(tier)), "array_lengths": "1, 2 (all ordered pairs: thorough), whole alphabet", "dtypes": DTYPES}

    def cases(self, tier):
        return specs(tier) + large(tier)

    def runlarge(self, case, cx):
        """an axis with many bins: one row in the middle of every bin (row i with weight i + 1), in both orders, and rows beyond both ends"""
        _, spec = case
        k = spec[0]
        if k == "bin" or k == "split":
            e = edges_of(spec)
            vals = [(a + b) / 2 for a, b in zip(e[:-1], e[1:])] + [e[0] - 1, e[-1] + 1, NAN]
        elif k == "intbin":
            vals = [float(v) for v in range(spec[2] - 1, spec[3] + 2)] + [NAN]
        elif k == "groupbin":
            vals = [spec[3] + spec[2] * (i + 0.5) for i in range(-5, 400)] + [NAN]
        else:
            vals = [float(i) for i in range(-5, 400)]
        if isfixed(spec):
            cx.expect(mk(spec).totbins == len(refkeys(spec)), "totbins %r != %d" % (mk(spec).totbins, len(refkeys(spec))), "keys")
        if isfixed(spec):
            keys = refkeys(spec)
            inner = dict((key[1] if key[0] == "i" else (key[1] + key[2]) / 2, key) for key in keys if key[0] == "i" or key[0] == "I" and not math.isinf(key[1]) and not math.isinf(key[2]))
            inside = set(inner.values())
            outer = [key for key in keys if key not in inside]
            cx.expect(len(outer) <= 3 and len(inner) > 100, "keys of a large axis", "keys")

            def find(v):
                return inner[v] if v in inner else next((key for key in outer if contains(key, v)), None)
        else:
            def find(v):
                return refkey(spec, v)
        for order in (1, -1):
            seq = vals[::order]
            h = Hist(mk(spec), weight="w")
            h.fill(x=numpy.array(seq), w=numpy.arange(1.0, len(seq) + 1))
            cx.step(len(seq))
            cx.trace()
            got = dict((key[0], c[0]) for key, c in observe(h).items())
            exp = {}
            for i, v in enumerate(seq):
                key = find(v)
                if key is not None:
                    exp[key] = exp.get(key, 0) + i + 1.0
            bad = sorted(((key, got.get(key), exp.get(key)) for key in set(got) | set(exp) if got.get(key) != exp.get(key)), key=repr)
            cx.state((spec, order))
            cx.outcome((spec, len(exp)))
            cx.expect(not bad, "an axis with many bins: %d bins differ, (bin, got, expected): %r" % (len(bad), bad[:5]), [spec[:2], order])

    def run(self, spec, cx):
        if spec[0] == "large":
            return self.runlarge(spec, cx)
        field = {"s": "s"}.get(spec[1]) or ("p" if spec[0] == "cut" and "p" in spec[1] else "x")
        vals = alphabet(spec)

        # the published keys are the documented ones, ordered and disjoint, and cover everything the flags promise
        if isfixed(spec):
            got = [obskey(k) for k in mk(spec).keys()]
            want = refkeys(spec)
            if not cx.expect(got == want, "keys: got %r expected %r" % (got, want), "keys"):
                return
            if spec[0] in ("bin", "split"):
                num = [k for k in got if k[0] == "I"]
                for a, b in zip(num[:-1], num[1:]):
                    cx.expect(a[2] == b[1] and a[4] != b[3], "neighbouring keys %r and %r do not meet" % (a, b), "keys")
            ax = mk(spec)
            cx.expect(ax.totbins == len(got), "totbins %r != %d keys" % (ax.totbins, len(got)), "keys")

        def value(v):
            return pyeval(spec[1], {field: v})

        expect = {}
        for i, v in enumerate(vals):
            expect[i] = refkey(spec, value(v))
            cx.state((spec, repr(v)))
            cx.outcome((spec, expect[i]))

        def fillcheck(arrayvals, array, what):
            h = Hist(mk(spec))
            h.fill({field: array})
            cx.step()
            cx.trace()
            exp = {}
            for v in arrayvals:
                k = refkey(spec, value(v))
                if k is not None:
                    exp[(k,)] = exp.get((k,), 0) + 1
            obs = observe(h)
            got = dict((k, c[0]) for k, c in obs.items())
            if got != exp:
                cx.fail("filled %r (%s): got %r expected %r" % (arrayvals, what, got, exp), [what, [repr(v) for v in arrayvals]])
                return False
            return True

        isnum = field == "x"
        # every value alone: as an array, as a bare number, as a list
        for i, v in enumerate(vals):
            if isnum:
                if not fillcheck([v], numpy.array([v]), "float64 array"):
                    return
                if not fillcheck([v], v, "scalar"):
                    return
            else:
                if not fillcheck([v], numpy.array([v]), "array"):
                    return
                if not fillcheck([v], v, "scalar"):
                    return
                if not fillcheck([v, v], [v, v], "list"):
                    return
        cx.sample({"axis": spec, "values": [repr(v) for v in vals[:6]], "expected_bins": [repr(expect[i]) for i in range(min(6, len(vals)))]})

        # the whole alphabet in one array, both orders, identified by power-of-two weights
        for order in (1, -1):
            seq = list(range(len(vals)))[::order]
            for lo in range(0, len(seq), 45):
                part = seq[lo:lo + 45]
                h = Hist(mk(spec), weight="w")
                h.fill({field: numpy.array([vals[i] for i in part]), "w": numpy.array([2.0 ** j for j in range(len(part))])})
                cx.step(len(part))
                cx.trace()
                got = {}
                for k, c in observe(h).items():
                    got[k[0]] = sorted(j for j in range(len(part)) if int(c[0]) >> j & 1)
                exp = {}
                for j, i in enumerate(part):
                    if expect[i] is not None:
                        exp.setdefault(expect[i], []).append(j)
                if got != exp:
                    bad = [(repr(vals[part[j]]), k) for k in set(got) | set(exp) for j in set(got.get(k, [])) ^ set(exp.get(k, []))]
                    cx.fail("one array with all values: misplaced (value, bin): %r" % bad[:10], "all")
                    return

        if isnum:
            # every dtype that carries the same values
            for dt in DTYPES:
                rep = representable(vals, dt)
                if not rep:
                    continue
                if not fillcheck(rep, asarray(rep, dt), dt + " array"):
                    return
                for v in rep:
                    # the same value through two dtypes is the same bin
                    h = Hist(mk(spec))
                    h.fill({field: asarray([v], dt)})
                    h.fill({field: numpy.array([v, v])})
                    cx.step(2)
                    cx.trace()
                    k = refkey(spec, value(v))
                    exp = {} if k is None else {(k,): 3.0}
                    got = dict((kk, c[0]) for kk, c in observe(h).items())
                    nkeys = len(h.table()) if isgroup(spec) else None
                    if got != exp or (nkeys is not None and nkeys != len(exp)):
                        cx.fail("value %r as %s then float64: got %r (%r keys) expected %r" % (v, dt, got, nkeys, exp), [dt, repr(v)])
                        return

        # ordered pairs (a value must not be disturbed by its neighbours in the array)
        small = vals if cx.tier == "thorough" else (vals[::max(1, len(vals) // 6)] + [v for v in vals if isinstance(v, float) and (v != v or math.isinf(v))])
        for a, b in itertools.product(small, repeat=2):
            if not fillcheck([a, b], numpy.array([a, b]), "pair"):
                return


CHECK = Check()
