"""C02: bin statistics equal the sums over exactly the entries that fall in the bin."""
import itertools
import math

from mc.ref import *

# name -> axis list; the fields used are x, z, i, g, y, w, p
GROUPS = [[], [["groupby", "g"]], [["groupbin", "z", 2, 0, "NL"]], [["groupby", "g"], ["groupbin", "z", 2, 1, "_L"]],
          [["groupby", "g"], ["groupbin", "z", 2, 0, "NL"], ["groupby", "p"]]]
FIXED = [
    [],
    [["bin", "x", 2, 0, 2, "UONL"]],
    [["bin", "x", 2, 0, 2, "___L"]],
    [["bin", "x", 2, 0, 2, "_ONH"]],
    [["split", "x", [0, 1, 2], "U__H"]],
    [["intbin", "i", 0, 1, "UO"]],
    [["intbin", "i", 0, 1, "__"]],
    [["cut", "x > 1"]],
    [["cut", "p"]],
    [["bin", "x", 2, 0, 2, "UONL"], ["cut", "p"]],
    [["bin", "x", 2, 0, 2, "___L"], ["split", "z", [0, 2], "___L"]],
    [["split", "z", [0, 1, 3], "_O_L"], ["bin", "x", 3, -1, 2, "__NH"]],
    [["intbin", "i", 0, 1, "__"], ["bin", "x", 2, 0, 2, "U_NL"], ["cut", "z > 1"]],
    [["cut", "p"], ["intbin", "i", 0, 2, "_O"], ["split", "z", [0, 1, 3], "____L"[1:]]],
    [["bin", "x", 2, 0, 2, "__NL"], ["cut", "p"], ["intbin", "i", 0, 1, "U_"], ["split", "z", [0, 2, 3], "_ONH"]],
]
PROFILES = [[], [["profile", "y"]], [["profile", "y"], ["profile", "x + y"]]]
WEIGHTS = [
    {}, {"weight": 2.5}, {"weight": "w"}, {"filter": "x > 0"}, {"filter": "x > 0", "weight": "w"}, {"filter": "not p", "weight": 0.5},
    {"weight": "w*k", "defs": {"k": "1 + 2*y"}}, {"filter": "p and x > 0"}, {"filter": "p or x > 1", "weight": "w + y"},
    {"weight": -2}, {"weight": 0, "filter": "p"},
]

VALS = {
    "x": [0.5, 1.0, -1.0, 2.0, 7.0, NAN],
    "z": [0.5, 2.5, -3.0, NAN],
    "i": [0.0, 1.0, 5.0, -2.0],
    "g": ["a", "bb", ""],
    "y": [0.3, -2.0, NAN],
    "w": [0.5, 3.0, 0.0, NAN, -1.0],
    "p": [True, False],
}
QVALS = dict(VALS, x=[0.5, -1.0, 2.0, NAN], z=[0.5, 2.5, NAN], i=[0.0, 5.0], g=["a", "bb"], w=[0.5, 0.0, NAN])

DTYPES = [("u1", 2 ** 7), ("i1", 2 ** 6), ("u2", 2 ** 15), ("i2", 2 ** 14), ("u4", 2 ** 28), ("i4", 2 ** 28), ("u8", 2 ** 28), ("i8", 2 ** 28), ("f2", 2 ** 11), ("f4", 2.0 ** 70)]


# Large configurations: axes as (spec, number of cells, value -> cell), numbers of rows
SIZES = [1, 127, 128, 255, 256, 257, 1000, 4097, 32768, 65535, 65536, 70001]


def bigaxes():
    n = [300, 40000, 70000, 257]
    out = {
        "bin40000": (["bin", "a", 40000, 0, 40000, "UONL"], 40003, lambda v: 0 if v < 0 else 40001 if v >= 40000 else int(v) + 1),
        "bin70000": (["bin", "a", 70000, 0, 35000, "____L"[1:]], 70000, lambda v: int(v * 2) if 0 <= v < 35000 else None),
        "bin300": (["bin", "b", 300, 0, 300, "UO_L"], 302, lambda v: 0 if v < 0 else 301 if v >= 300 else int(v) + 1),
        "bin129": (["bin", "b", 129, 0, 258, "___L"], 129, lambda v: int(v // 2) if 0 <= v < 258 else None),
        "split1000": (["split", "c", [float(k * k) for k in range(1001)], "UONL"], 1003, lambda v: 0 if v < 0 else 1001 if v >= 10 ** 6 else int(math.sqrt(v)) + 1),
        "int40000": (["intbin", "i", -100, 39899, "UO"], 40002, lambda v: 0 if v < -100 else 40001 if v > 39899 else int(v) + 101),
        "int256": (["intbin", "i", 0, 255, "__"], 256, lambda v: int(v) if 0 <= v <= 255 else None),
        "groupby": (["groupby", "k"], 0, lambda v: v),
        "groupbin": (["groupbin", "b", 1, 0, "NL"], 0, lambda v: float(math.floor(v))),
        "cut": (["cut", "b > 100"], 2, lambda v: int(v > 100)),
    }
    return out


BIG = [["bin40000"], ["bin70000"], ["bin300", "split1000"], ["int40000"], ["int256", "bin129", "cut"], ["groupby"], ["groupbin", "int256"], ["groupby", "groupbin"], ["groupby", "bin300"], ["cut", "bin40000"], ["split1000"], []]


def used(ref):
    out = set()
    for s in ref.specs:
        out |= names(s[1])
    for e in (ref.weight, ref.filter):
        if isinstance(e, str):
            out |= names(e)
    for e in (ref.defs or {}).values():
        out |= names(e)
    return sorted(out - set(ref.defs or {}))


def names(e):
    import ast
    return set(n.id for n in ast.walk(ast.parse(e.strip(), mode="eval")) if isinstance(n, ast.Name))


class Check(object):
    id = "C02"
    case_timeout = 400
    assumptions = ["profile means are compared only for bins of positive total weight (the library reports 0 otherwise)",
                   "profiled values of rows that enter a bin are finite or NaN; weights are finite or NaN (infinite weights: counts and their errors only)"]

    def bounds(self, tier):
        return {"axis_mixes": len(GROUPS) * len(FIXED) * len(PROFILES), "weight_modes": len(WEIGHTS),
                "fills": "each case: every alphabet row alone, every ordered pair of a covering sub-alphabet, whole alphabet forwards and backwards, scalar/array mixtures",
                "alphabets": {k: [repr(z) for z in v] for k, v in (VALS if tier == "thorough" else QVALS).items()}}

    def cases(self, tier):
        out = []
        for gi, fi, pi, wi in itertools.product(range(len(GROUPS)), range(len(FIXED)), range(len(PROFILES)), range(len(WEIGHTS))):
            if not GROUPS[gi] and not FIXED[fi] and not PROFILES[pi] and not WEIGHTS[wi]:
                continue     # a histogram without any field counts calls, not rows
            if tier == "quick" and len(FIXED[fi]) == 0 and wi in (7, 8, 10):
                continue
            out.append([gi, fi, pi, wi])
        out += [["infinite", g, f, w] for g in (0, 1, 2) for f in (0, 1, 2, 9) for w in (2, 4, 8)]
        out += [["big", b, w, n] for b in range(len(BIG)) for w in range(4) for n in ([257, 70001] if tier == "quick" else SIZES) if b != 7 or n < 1000]
        return out

    def big(self, case, cx):
        """Many bins, many groups, many rows, large weights: cells computed independently."""
        _, b, w, nrows = case
        axes = [bigaxes()[n] for n in BIG[b]]
        prof = w == 3
        opts = [{}, {"weight": "w"}, {"weight": 2.0 ** 24 + 1, "filter": "p"}, {"weight": "w"}][w]
        rows = []
        for r in range(nrows):
            q = (r * 7919) % 70003
            rows.append({"a": q - 1 + 0.5, "b": (q % 307) - 3 + 0.25, "c": float((q * 13) % 1000100 - 50), "i": q - 105 if b == 3 else q % 259 - 1, "k": q % 300, "w": 2.0 ** 24 + r % 3, "p": r % 5 != 0, "y": float(r % 1000)})
        if not axes and not opts and not prof:
            return
        h = histbook.hist.Hist(*[mk(s) for s, _, _ in axes] + ([histbook.axis.profile("y")] if prof else []), **opts)
        fields = [f for f in sorted(rows[0]) if f in h.fields]
        data = dict((f, numpy.array([r[f] for r in rows])) for f in fields)
        h.fill(data)
        want = {}
        for r in rows:
            cell = tuple(f(r[s[1][0]]) for s, _, f in axes)
            wt = 1.0 if not opts else r["w"] if opts["weight"] == "w" else opts["weight"]
            if None in cell or ("filter" in opts and not r["p"]):
                continue
            z = want.setdefault(cell, [0.0, 0.0, 0.0])
            z[0] += wt
            z[1] += wt * wt
            z[2] += wt * r["y"]
        cx.step(2)
        cx.trace()
        cx.state(case)
        got = {}

        def walk(node, cell, j):
            if isinstance(node, dict):
                for k, x in node.items():
                    walk(x, cell + (k,), j + 1)
                return
            shape = tuple(n for _, n, _ in axes[j:])
            if node.shape[:-1] != shape:
                raise core.Violation("%r: shape of the table is %r, expected %r" % (BIG[b], node.shape, shape))
            flat = node.reshape((-1, node.shape[-1]))
            for n in numpy.nonzero(flat[:, 0])[0].tolist():
                at = []
                m = n
                for size in reversed(shape):
                    at.insert(0, m % size)
                    m //= size
                got[cell + tuple(at)] = flat[n].tolist()

        walk(h.table(*(["y"] if prof else []), count=True, error=True, recarray=False), (), 0)
        cx.outcome((len(got), sum(z[0] for z in got.values())))
        if set(got) != set(want):
            raise core.Violation("%r %r, %d rows: cells %r are filled, expected %r" % (BIG[b], opts, nrows, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]))
        for cell, z in want.items():
            o = got[cell]
            exp = [z[0], math.sqrt(z[1])] + ([z[2] / z[0]] if prof else [])
            if any(not close(x, y, 1e-9) for x, y in zip(o, exp)) or o[0] != exp[0]:
                raise core.Violation("%r %r, %d rows: cell %r has %r, expected %r" % (BIG[b], opts, nrows, cell, o, exp))

    def infinite(self, case, cx):
        """infinite weights are weights: the count is the sum"""
        ref = Ref(GROUPS[case[1]] + FIXED[case[2]], **WEIGHTS[case[3]])
        base = [{"x": 0.5, "z": 0.5, "g": "a", "p": True, "y": 0.0, "i": 0.0}, {"x": 1.5, "z": 2.5, "g": "bb", "p": False, "y": 0.0, "i": 0.0}, {"x": -1.0, "z": 0.5, "g": "a", "p": False, "y": 0.0, "i": 0.0}]
        rows = [dict(b, w=w) for b in base for w in (INF, -INF, 0.5, NAN)]
        fields = used(ref)
        for some in itertools.chain.from_iterable(itertools.combinations(rows, k) for k in (1, 2, 3)):
            h = ref.hist()
            h.fill(columns(some, fields))
            exp = {}
            for r in some:
                key = ref.locate(r)
                if key is None or r["w"] != r["w"]:
                    continue
                if ref.filter and not pyeval(ref.filter, r):
                    continue
                a, b = exp.get(key, (0.0, 0.0))
                exp[key] = (a + r["w"], b + r["w"] ** 2)
            got = dict((k, v[:2]) for k, v in observe(h).items())
            cx.step()
            cx.trace()
            cx.state((case, [repr(r) for r in some]))
            for k in set(got) | set(exp):
                a, b = got.get(k, (0.0, 0.0)), exp.get(k, (0.0, 0.0))
                b = (b[0], math.sqrt(b[1]))
                if any(not (u == v or u != u and v != v) for u, v in zip(a, b)):
                    raise core.Violation("%r %r filled with %r\nbin %r has count and error %r, expected %r" % (ref.specs, ref.opts(), some, k, a, b))

    def run(self, case, cx):
        if case[0] == "infinite":
            return self.infinite(case, cx)
        if case[0] == "big":
            return self.big(case, cx)
        gi, fi, pi, wi = case
        ref = Ref(GROUPS[gi] + FIXED[fi] + PROFILES[pi], **WEIGHTS[wi])
        fields = used(ref)
        if not fields:
            return
        vals = VALS if cx.tier == "thorough" else QVALS
        rows = [dict(zip(fields, t)) for t in itertools.product(*[vals[f] for f in fields])]
        cap = 400 if cx.tier == "thorough" else 60
        # all rows of the product in one array (both directions); singles and pairs over an evenly spread cover
        cover = spread(rows, 14 if cx.tier == "thorough" else 5)

        def one(seq, scalars=(), dtype=None):
            h = ref.hist()
            data = columns(seq, fields, dtype)
            for f in scalars:
                data[f] = seq[0][f]
            h.fill(data)
            cx.step()
            cx.trace()
            obs = observe(h)
            d = diff(obs, ref.with_rows([(r, 1) for r in seq]).expected())
            cx.state((case, [repr(r) for r in seq]))
            cx.outcome(obshash(obs))
            if d is not None:
                cx.fail("%r %r\nfilled rows %r (scalar fields %r)\n%s" % (ref.specs, ref.opts(), seq[:6], dtype or scalars, d), [[repr(sorted(r.items())) for r in seq[:6]], list(scalars)])
                return False
            return True

        big = spread(rows, 1200)
        if not (one(big) and one(big[::-1]) and one([])):
            return
        cx.sample({"axes": ref.specs, "opts": ref.opts(), "rows": [repr(r) for r in big[:3]]})
        for r in spread(rows, cap):
            if not one([r]):
                return
        for r in cover:
            if not one([r], scalars=fields):
                return
        for a, b in itertools.product(cover, repeat=2):
            if not one([a, b]):
                return
        # a scalar argument stands for the same value on every row
        for f in fields:
            byval = {}
            for r in big:
                byval.setdefault(repr(r[f]), []).append(r)
            for seq in list(byval.values()):
                if len(fields) > 1 and not one(seq[:50], scalars=[f]):
                    return
        # arrays of every numeric type (powers of two, so that all sums are exact)
        numeric = [f for f in fields if f in "xziyw"]
        for dt, big in DTYPES + ([("i8", 2 ** 40)] if not ref.defs else []):
            small = [0.0, 1.0, 2.0, float(big)] + ([-1.0] if dt[0] != "u" else [])
            seq = [dict(r, **dict((f, small[(k * m + k // 3) % len(small)]) for m, f in enumerate(numeric, 1))) for k, r in enumerate(spread(rows, 20))]
            if not one(seq, dtype=dict((f, dt) for f in numeric)):
                return
        if cx.tier == "thorough":
            for t in itertools.product(spread(rows, 5), repeat=3):
                if not one(list(t)):
                    return


def spread(rows, n):
    """At most n rows, evenly spaced with a step coprime to the product structure, so that every field varies."""
    if len(rows) <= n:
        return list(rows)
    step = max(1, len(rows) // n)
    while math.gcd(step, len(rows)) != 1:
        step += 1
    return [rows[(k * step + k // len(rows)) % len(rows)] for k in range(n)]


CHECK = Check()
