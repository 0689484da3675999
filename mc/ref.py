"""Reference model: a histogram is the multiset of rows filled into it. Everything else is recomputed from the
rows by brute force, in plain Python, from the documentation's definitions only."""
import math

from mc import core  # puts /repo on sys.path

import numpy
import histbook
from histbook import Hist, Book, bin, intbin, split, cut, groupby, groupbin, profile
import histbook.axis
import histbook.expr

INF = float("inf")
NAN = float("nan")

# ------------------------------------------------------------------ axis specifications (JSON-able lists)
# ["bin", expr, n, low, high, "UONL"]   flags: U O N present or "_", then L (closedlow) or H
# ["split", expr, [edges], "UONL"]
# ["intbin", expr, min, max, "UO"]
# ["groupbin", expr, binwidth, origin, "NL"]
# ["groupby", expr]   ["cut", expr]   ["profile", expr]

BINFLAGS = [u + o + n + l for u in "U_" for o in "O_" for n in "N_" for l in "LH"]
INTFLAGS = [u + o for u in "U_" for o in "O_"]
GBFLAGS = [n + l for n in "N_" for l in "LH"]


def mk(spec):
    """Builds the real axis."""
    k = spec[0]
    if k == "bin":
        f = spec[5]
        return bin(spec[1], spec[2], spec[3], spec[4], underflow="U" in f, overflow="O" in f, nanflow="N" in f, closedlow="L" in f)
    if k == "split":
        f = spec[3]
        return split(spec[1], list(spec[2]), underflow="U" in f, overflow="O" in f, nanflow="N" in f, closedlow="L" in f)
    if k == "intbin":
        f = spec[4]
        return intbin(spec[1], spec[2], spec[3], underflow="U" in f, overflow="O" in f)
    if k == "groupbin":
        f = spec[4]
        return groupbin(spec[1], spec[2], origin=spec[3], nanflow="N" in f, closedlow="L" in f)
    if k == "groupby":
        return groupby(spec[1])
    if k == "cut":
        return cut(spec[1])
    if k == "profile":
        return profile(spec[1])
    raise AssertionError(spec)


def isgroup(spec):
    return spec[0] in ("groupby", "groupbin")


def isprofile(spec):
    return spec[0] == "profile"


def isfixed(spec):
    return not isgroup(spec) and not isprofile(spec)


def ordered(specs):
    return [s for s in specs if isgroup(s)] + [s for s in specs if isfixed(s)] + [s for s in specs if isprofile(s)]


def edges_of(spec):
    if spec[0] == "bin":
        n, lo, hi = spec[2], float(spec[3]), float(spec[4])
        return [lo + (hi - lo) * i / n for i in range(n)] + [hi] if n > 0 else [lo]
    if spec[0] == "split":
        return [float(e) for e in sorted(spec[2])]
    raise AssertionError(spec)


def flags_of(spec):
    return {"bin": lambda: spec[5], "split": lambda: spec[3], "intbin": lambda: spec[4], "groupbin": lambda: spec[4]}[spec[0]]()


def rnd(x):
    """Key positions are compared to 12 significant digits (binary fractions compare exactly)."""
    return x if math.isinf(x) or x != x else float("%.12g" % x) + 0.0


def I(lo, hi, cl, ch):
    return ("I", rnd(lo), rnd(hi), cl, ch)


def _exactI(lo, hi, cl, ch):
    return ("I", lo, hi, cl, ch)


def refkeys(spec, I=I):
    """All keys of a fixed axis, in order (I=_exactI: with unrounded edges)."""
    k = spec[0]
    if k in ("bin", "split"):
        e, f = edges_of(spec), flags_of(spec)
        cl = "L" in f
        out = []
        if "U" in f:
            out.append(I(-INF, e[0], True, not cl))
        out += [I(a, b, cl, not cl) for a, b in zip(e[:-1], e[1:])]
        if "O" in f:
            out.append(I(e[-1], INF, cl, True))
        if "N" in f:
            out.append(("NaN",))
        return out
    if k == "intbin":
        f = flags_of(spec)
        out = []
        if "U" in f:
            out.append(I(-INF, spec[2], True, False))
        out += [("i", i) for i in range(spec[2], spec[3] + 1)]
        if "O" in f:
            out.append(I(spec[3], INF, False, True))
        return out
    if k == "cut":
        return [("b", False), ("b", True)]
    raise AssertionError(spec)


def contains(key, v):
    """Does the published key contain the value? (infinite edges are always included)"""
    if key[0] == "NaN":
        return isinstance(v, float) and math.isnan(v)
    if key[0] == "b":
        return bool(v) is key[1]
    if key[0] == "i":
        return v == key[1]
    if key[0] == "g":
        return v == key[1]
    if isinstance(v, float) and math.isnan(v):
        return False
    _, lo, hi, cl, ch = key
    if v < lo or v > hi:
        return False
    if v == lo and not (cl or math.isinf(lo)):
        return False
    if v == hi and not (ch or math.isinf(hi)):
        return False
    return True


_exactkeys = {}


def refkey(spec, v):
    """The key a value belongs to, or None if the axis has no bin for it."""
    k = spec[0]
    if k == "groupby":
        return ("g", v)
    if k == "groupbin":
        f = flags_of(spec)
        v = float(v)
        if math.isnan(v):
            return ("NaN",) if "N" in f else None
        bw, org = float(spec[2]), float(spec[3])
        cl = "L" in f
        if math.isinf(v):
            return I(v, v, cl, not cl)
        i = math.floor((v - org) / bw) if cl else math.ceil((v - org) / bw) - 1
        return I(i * bw + org, (i + 1) * bw + org, cl, not cl)
    memo = _exactkeys.get(repr(spec))
    if memo is None:
        memo = _exactkeys[repr(spec)] = list(zip(refkeys(spec, _exactI), refkeys(spec)))
    found = [key for exact, key in memo if contains(exact, v)]
    assert len(found) <= 1, (spec, v, found)
    return found[0] if found else None


def obskey(x):
    """Normal form of a key published by the library."""
    if isinstance(x, histbook.axis.IntervalNaN):
        return ("NaN",)
    if isinstance(x, histbook.axis.Interval):
        return I(float(x.low), float(x.high), bool(x.closedlow), bool(x.closedhigh))
    if isinstance(x, (bool, numpy.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, numpy.integer)):
        return ("i", int(x))
    return ("g", groupval(x))


def groupval(x):
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    if isinstance(x, (numpy.integer, int)):
        return int(x)
    if isinstance(x, (numpy.floating, float)):
        return float(x)
    if isinstance(x, bytes):
        return x
    return str(x)


# ------------------------------------------------------------------ expressions, evaluated independently
ENV = {"pi": math.pi, "e": math.e, "inf": INF, "nan": NAN, "abs": abs, "min": min, "max": max, "sqrt": lambda x: math.sqrt(x) if x >= 0 else NAN,
       "where": lambda c, a, b: a if c else b, "floor": math.floor, "ceil": math.ceil, "isnan": lambda x: x != x}
_compiled = {}


def pyeval(expr, row):
    if not isinstance(expr, str):
        return expr
    c = _compiled.get(expr)
    if c is None:
        c = _compiled[expr] = compile(expr.strip(), "<ref>", "eval")
    return eval(c, {"__builtins__": {}}, dict(ENV, **row))


def withdefs(defs, row):
    """Definitions are evaluated on the row as if written out."""
    if not defs:
        return row
    out = dict(row)
    for n, x in defs.items():
        out[n] = pyeval(x, row)
    return out


# ------------------------------------------------------------------ the reference histogram
class Ref(object):
    def __init__(self, specs, weight=None, filter=None, defs=None, rows=()):
        self.specs = ordered(specs)
        self.weight, self.filter, self.defs = weight, filter, defs
        self.rows = list(rows)          # (row dict, scale)

    @property
    def weighted(self):
        return self.weight is not None or self.filter is not None

    @property
    def binspecs(self):
        return [s for s in self.specs if not isprofile(s)]

    @property
    def profspecs(self):
        return [s for s in self.specs if isprofile(s)]

    def hist(self):
        """An unfilled real histogram of this specification."""
        return Hist(*[mk(s) for s in self.specs], **self.opts())

    def opts(self):
        o = {}
        if self.weight is not None:
            o["weight"] = self.weight
        if self.filter is not None:
            o["filter"] = self.filter
        if self.defs is not None:
            o["defs"] = dict(self.defs)
        return o

    def copy(self):
        return Ref(self.specs, self.weight, self.filter, self.defs, list(self.rows))

    def with_rows(self, rows):
        return Ref(self.specs, self.weight, self.filter, self.defs, rows)

    def fill(self, rows):
        self.rows.extend((r, 1) for r in rows)

    def scaled(self, c):
        return self.with_rows([(r, s * c) for r, s in self.rows])

    def locate(self, row):
        """Key tuple of a row, or None if some axis drops it."""
        row = withdefs(self.defs, row)
        key = []
        for s in self.binspecs:
            k = refkey(s, pyeval(s[1], row))
            if k is None:
                return None
            key.append(k)
        return tuple(key)

    def rowweight(self, row):
        row = withdefs(self.defs, row)
        if self.filter is not None and not pyeval(self.filter, row):
            return 0.0
        w = 1.0 if self.weight is None else float(pyeval(self.weight, row))
        return 0.0 if math.isnan(w) else w

    def stats(self):
        """key tuple -> [sumw, sumw2, sumwx, sumwx2, ...], zero bins left out."""
        out = {}
        np = len(self.profspecs)
        for row, scale in self.rows:
            key = self.locate(row)
            if key is None:
                continue
            w = self.rowweight(row)
            if key not in out:
                out[key] = [0.0] * (2 + 2 * np)
            cell = out[key]
            if w == 0:
                continue
            cell[0] += scale * w
            cell[1] += scale * w * w
            drow = withdefs(self.defs, row)
            for j, s in enumerate(self.profspecs):
                x = float(pyeval(s[1], drow))
                cell[2 + 2 * j] += scale * w * x
                cell[3 + 2 * j] += scale * w * x * x
        return dict((k, v) for k, v in out.items() if any(z != 0 for z in v))

    def expected(self):
        return derive(self.stats(), self.weighted, len(self.profspecs))


def derive(stats, weighted, nprof):
    """key -> (count, err, effcount, mean, err, ...) from the sums, by the documented formulas."""
    out = {}
    for k, v in stats.items():
        sumw = v[0]
        sumw2 = v[1] if weighted else v[0]
        row = [sumw, math.sqrt(sumw2) if sumw2 >= 0 else NAN]
        if sumw > 0:
            eff = sumw if not weighted else (sumw * sumw / sumw2)
            row.append(eff)
            for j in range(nprof):
                mean = v[2 + 2 * j] / sumw
                var = v[3 + 2 * j] / sumw - mean * mean
                row.append(mean)
                row.append(math.sqrt(max(0.0, var) / eff) if not math.isnan(var) else NAN)
        else:
            row += [0.0] * (1 + 2 * nprof)
        out[k] = tuple(row)
    return out


def observe(h, profiles=None):
    """Reads a real histogram through table() and the axes' keys: key tuple -> (count, err, effcount, mean, err, ...)."""
    axes = list(h.axis)
    groups = [x for x in axes if isinstance(x, histbook.axis.GroupAxis)]
    fixed = [x for x in axes if isinstance(x, histbook.axis.FixedAxis)]
    profs = [x for x in axes if isinstance(x, histbook.axis.ProfileAxis)] if profiles is None else profiles
    table = h.table(*profs, count=True, effcount=True, error=True, recarray=False)
    ncol = 3 + 2 * len(profs)
    fkeys = [[obskey(k) for k in x.keys()] for x in fixed]
    out = {}

    def dofixed(j, content, key):
        if j == len(fixed):
            if len(content) != ncol:
                raise core.Violation("table has %d columns, expected %d" % (len(content), ncol))
            if any(z != 0 for z in content):
                out[key] = tuple(float(z) for z in content)
        else:
            if len(content) != len(fkeys[j]):
                raise core.Violation("axis %r has %d keys but its content has %d bins" % (fixed[j], len(fkeys[j]), len(content)))
            for k, x in zip(fkeys[j], content):
                dofixed(j + 1, x, key + (k,))

    def dogroup(j, content, key):
        if j == len(groups):
            dofixed(0, content.tolist(), key)
        else:
            items = groups[j].items(content)
            if len(items) != len(content):
                raise core.Violation("axis %r items do not match the content" % groups[j])
            for k, x in items:
                k = obskey(k)
                if k[0] == "i" or k[0] == "b":
                    k = ("g", k[1])
                dogroup(j + 1, x, key + (k,))

    dogroup(0, table, ())
    return out


def close(a, b, tol=1e-9):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if a != a or b != b or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def diff(obs, exp, tol=1e-9):
    """None if equal, else a readable difference."""
    out = []
    for k in sorted(set(obs) | set(exp), key=repr):
        o, e = obs.get(k), exp.get(k)
        if o is None:
            o = (0.0,) * len(e)
        if e is None:
            e = (0.0,) * len(o)
        if len(o) != len(e):
            out.append("%r: %d columns, expected %d" % (k, len(o), len(e)))
        else:
            ok = True
            for i, (a, b) in enumerate(zip(o, e)):
                # a profile error is a square root of a difference: compare with an absolute tolerance
                if not close(a, b, 1e-6 if (i >= 4 and i % 2 == 0) else tol):
                    ok = False
            if not ok:
                out.append("%r: got %r expected %r" % (k, o, e))
    if not out:
        return None
    return "(count, err, effcount, mean, err, ...)\n" + "\n".join(out[:12])


def obshash(obs):
    return tuple(sorted((repr(k), tuple("%.9g" % z for z in v)) for k, v in obs.items()))


def columns(rows, fields, dtype=None):
    """Rows (dicts) -> dict of arrays."""
    out = {}
    for f in fields:
        vals = [r[f] for r in rows]
        if dtype is not None and f in dtype:
            out[f] = numpy.array(vals, dtype=dtype[f])
        elif vals and isinstance(vals[0], str):
            out[f] = numpy.array(vals)
        elif vals and isinstance(vals[0], bool):
            out[f] = numpy.array(vals, dtype=numpy.bool_)
        else:
            out[f] = numpy.array(vals, dtype=numpy.float64)
    return out


def fieldsof(rows):
    return sorted(rows[0]) if rows else []


def check_equal(h, ref, what=""):
    """Violation unless the real histogram shows exactly what the model says."""
    obs = observe(h)
    d = diff(obs, ref.expected())
    if d is not None:
        raise core.Violation("%s\n%s" % (what, d))
    return obs
