"""C20: filling from data frames equals filling from arrays.

pandas and pyspark are replaced by stand-ins: a pandas frame of columns, and a lazily evaluated Spark frame whose columns are interpreted row by row
with the SQL semantics of Spark (three-valued logic, NaN equal to itself and greater than everything, division by zero null, floor and ceil to 64-bit
integers, struct rows, groupBy and aggregation that skip nulls, misuse of columns as Python values raises).

hist   every axis mixture x profile mixture x weight mode: filled once, twice, and after an array fill, in row orders forwards and backwards
expr   every expression of an alphabet as axis, profile, weight, filter and cut
book   books of every pair of a pool of histograms
option the fill= option of the constructor with dicts, single arrays and frames"""
import functools
import itertools
import sys
import types

from mc.ref import *
from mc.c02 import spread, used
from histbook import Book


# ------------------------------------------------------------------ the Spark stand-in
class AnalysisException(Exception):
    pass


class Column(object):
    """A function of the row; aggregates are functions of a list of rows."""

    def __init__(self, f, name="?", agg=None, chain=None):
        self._f, self._name, self._agg, self._chain = f, name, agg, chain

    def __bool__(self):
        raise ValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not' when building DataFrame boolean expressions.")

    __nonzero__ = __bool__
    __hash__ = None

    def __contains__(self, item):
        raise ValueError("Cannot apply 'in' operator against a column: please use 'contains' in a string column or 'array_contains' function for an array column.")

    def __iter__(self):
        raise TypeError("Column is not iterable")

    def alias(self, name):
        return Column(self._f, name, self._agg)

    name = alias

    def cast(self, to):
        to = str(to).lower()
        fs = {"double": float, "float": float, "int": int, "integer": int, "long": int, "bigint": int, "string": str, "boolean": bool}
        if to not in fs:
            raise AnalysisException("cast to " + to)

        def f(v):
            if v is None:
                return None
            if fs[to] is int:
                return tolong(v)
            return fs[to](v)
        return unary(self, f)

    astype = cast

    def isin(self, *values):
        if len(values) == 1 and isinstance(values[0], (list, set)):
            values = values[0]
        elif len(values) == 1 and isinstance(values[0], (tuple, frozenset)):
            raise AnalysisException("isin of a tuple or frozenset is a literal of an unsupported type")
        return functools.reduce(lambda a, b: a | b, [self == v for v in values], lit(False))

    def isNull(self):
        return Column(lambda r: self._f(r) is None)

    def isNotNull(self):
        return Column(lambda r: self._f(r) is not None)

    def when(self, cond, value):
        if self._chain is None:
            raise TypeError("when() can only be applied on a Column previously generated by when() function")
        return case(self._chain + [(cond, col(value))], None)

    def otherwise(self, value):
        if self._chain is None:
            raise TypeError("otherwise() can only be applied on a Column previously generated by when() function")
        return case(self._chain, col(value))

    def between(self, a, b):
        return (self >= a) & (self <= b)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise AnalysisException("no field " + n)


def col(x):
    return x if isinstance(x, Column) else lit(x)


def numeric(v):
    if v is None:
        return None
    if isinstance(v, bool):
        raise AnalysisException("a boolean in arithmetic")
    if isinstance(v, str):
        return float(v)     # implicit cast
    return v


def unary(a, f, strict=True):
    def g(r):
        v = a._f(r)
        return None if strict and v is None else f(v)
    return Column(g)


def binary(a, b, f, num=True):
    a, b = col(a), col(b)

    def g(r):
        x, y = a._f(r), b._f(r)
        if x is None or y is None:
            return None
        return f(numeric(x), numeric(y)) if num else f(x, y)
    return Column(g)


def wrap(v):
    """64-bit arithmetic."""
    if isinstance(v, int) and not isinstance(v, bool):
        return (v + 2 ** 63) % 2 ** 64 - 2 ** 63
    return v


def arith(f):
    def g(x, y):
        try:
            return wrap(f(x, y))
        except OverflowError:
            return INF
    return g


def div(x, y):
    if y == 0:
        return None
    return float(x) / float(y)


def mod(x, y):
    if y == 0:
        return None
    if isinstance(x, int) and isinstance(y, int):
        return int(math.fmod(x, y))
    try:
        return math.fmod(x, y)
    except ValueError:
        return NAN


def isnanv(v):
    return isinstance(v, float) and v != v


def compare(x, y):
    """-1, 0, 1; NaN is equal to NaN and greater than everything else."""
    if isinstance(x, str) != isinstance(y, str) or isinstance(x, bool) != isinstance(y, bool):
        raise AnalysisException("comparison of different types: %r %r" % (x, y))
    if isnanv(x) or isnanv(y):
        return int(isnanv(x)) - int(isnanv(y))
    return (x > y) - (x < y)


def power(x, y):
    try:
        out = math.pow(x, y)
    except OverflowError:
        return INF
    except ValueError:
        return NAN
    return out


for name, f, num in [("add", arith(lambda x, y: x + y), True), ("sub", arith(lambda x, y: x - y), True), ("mul", arith(lambda x, y: x * y), True), ("truediv", div, True), ("div", div, True), ("mod", mod, True), ("pow", power, True),
                     ("lt", lambda x, y: compare(x, y) < 0, False), ("le", lambda x, y: compare(x, y) <= 0, False), ("gt", lambda x, y: compare(x, y) > 0, False), ("ge", lambda x, y: compare(x, y) >= 0, False),
                     ("eq", lambda x, y: compare(x, y) == 0, False), ("ne", lambda x, y: compare(x, y) != 0, False)]:
    setattr(Column, "__%s__" % name, lambda self, other, f=f, num=num: binary(self, other, f, num))
    if num:
        setattr(Column, "__r%s__" % name, lambda self, other, f=f, num=num: binary(other, self, f, num))


def boolean(v):
    if v is not None and not isinstance(v, bool):
        raise AnalysisException("not a boolean: %r" % (v,))
    return v


def land(x, y):
    if x is False or y is False:
        return False
    return None if x is None or y is None else True


def lor(x, y):
    if x is True or y is True:
        return True
    return None if x is None or y is None else False


def logic(f):
    def op(self, other):
        other = col(other)
        return Column(lambda r: f(boolean(self._f(r)), boolean(other._f(r))))
    return op


Column.__and__ = Column.__rand__ = logic(land)
Column.__or__ = Column.__ror__ = logic(lor)
Column.__invert__ = lambda self: unary(self, lambda v: not boolean(v))
Column.__neg__ = lambda self: unary(self, lambda v: -numeric(v))


def lit(v):
    if isinstance(v, Column):
        return v
    if isinstance(v, numpy.generic):
        raise AnalysisException("Unsupported literal type %s" % type(v))
    if v is not None and not isinstance(v, (bool, int, float, str)):
        raise AnalysisException("Unsupported literal type %s" % type(v))
    return Column(lambda r: v, "lit")


def case(pairs, other):
    pairs = [(c, col(v)) for c, v in pairs]
    for c, _ in pairs:
        if not isinstance(c, Column):
            raise TypeError("condition should be a Column")

    def f(r):
        for c, v in pairs:
            if boolean(c._f(r)) is True:
                return v._f(r)
        return None if other is None else other._f(r)
    return Column(f, "case", chain=None if other is not None else pairs)


def tolong(v):
    if isinstance(v, float):
        if v != v:
            return 0
        return int(max(-2.0 ** 63, min(2.0 ** 63, v))) if abs(v) < 2.0 ** 63 else (2 ** 63 - 1 if v > 0 else -2 ** 63)
    return wrap(int(v))


def best(sign):
    def f(*cols):
        cols = [asname(c) for c in cols]
        if len(cols) < 2:
            raise ValueError("should take at least two columns")

        def g(r):
            vs = [v for v in (c._f(r) for c in cols) if v is not None]
            out = None
            for v in vs:
                if out is None or sign * compare(v, out) > 0:
                    out = v
            # the common type
            return float(out) if out is not None and any(isinstance(v, float) for v in vs) else out
        return Column(g)
    return f


def asname(c):
    """Functions take columns or column names."""
    return Column(lambda r, c=c: r[c], c) if isinstance(c, str) else c if isinstance(c, Column) else bad(c)


def bad(c):
    raise TypeError("Invalid argument, not a string or column: %r" % (c,))


def mathfn(f, nullbelow=None):
    def g(c):
        def h(v):
            v = numeric(v)
            if nullbelow is not None and v <= nullbelow:
                return None
            try:
                return float(f(v))
            except ValueError:
                return NAN
            except OverflowError:
                return INF
        return unary(asname(c), h)
    return g


def math2(f):
    def g(a, b):
        def h(x, y):
            try:
                return float(f(float(x), float(y)))
            except ValueError:
                return NAN
            except OverflowError:
                return INF
        return binary(asname(a) if isinstance(a, str) else a, asname(b) if isinstance(b, str) else b, h)
    return g


def roundhalfup(v):
    if isinstance(v, int) or v != v or math.isinf(v):
        return v
    return float(math.copysign(math.floor(abs(v) + 0.5), v))


def aggregate(f, skip=True):
    def g(c):
        c = asname(c)
        return Column(None, "agg", agg=lambda rows: f([v for v in (c._f(r) for r in rows) if v is not None]))
    return g


def total(vs):
    if not vs:
        return None
    out = vs[0]
    for v in vs[1:]:
        out = wrap(out + v)
    return out


class Row(tuple):
    def __new__(cls, values, names):
        out = tuple.__new__(cls, values)
        out.__fields__ = list(names)
        return out

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self.__fields__:
                raise ValueError(i)
            return tuple.__getitem__(self, self.__fields__.index(i))
        return tuple.__getitem__(self, i)

    def asDict(self):
        return dict(zip(self.__fields__, self))


def functions():
    m = types.ModuleType("pyspark.sql.functions")

    def struct(*cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple, set)):
            cols = list(cols[0])
        cols = [asname(c) for c in cols]
        names = [c._name if c._name not in ("?", "lit", "case") else "col%d" % (i + 1) for i, c in enumerate(cols)]
        return Column(lambda r: Row([c._f(r) for c in cols], names), "struct")

    def nanvl(a, b):
        a, b = asname(a), asname(b)

        def f(r):
            v = numeric(a._f(r))
            if v is None:
                return None
            v = float(v)
            w = b._f(r)
            return v if v == v else (None if w is None else float(w))
        return Column(f)

    def coalesce(*cols):
        cols = [asname(c) for c in cols]

        def f(r):
            for c in cols:
                v = c._f(r)
                if v is not None:
                    return v
            return None
        return Column(f)

    table = {
        "lit": lit, "col": lambda n: asname(n), "column": lambda n: asname(n), "when": lambda c, v: case([(c, v)], None), "struct": struct, "nanvl": nanvl, "coalesce": coalesce,
        "greatest": best(1), "least": best(-1), "isnan": lambda c: unary(asname(c), lambda v: False if v is None else isnanv(float(numeric(v))), strict=False), "isnull": lambda c: asname(c).isNull(),
        "abs": lambda c: unary(asname(c), lambda v: abs(numeric(v))), "floor": lambda c: unary(asname(c), lambda v: v if isinstance(v, int) else tolong(v if v != v or math.isinf(v) else float(math.floor(v)))),
        "ceil": lambda c: unary(asname(c), lambda v: v if isinstance(v, int) else tolong(v if v != v or math.isinf(v) else float(math.ceil(v)))),
        "rint": mathfn(lambda v: v if math.isinf(v) or v != v else builtin_round(v)), "round": lambda c, scale=0: unary(asname(c), roundhalfup), "bround": mathfn(lambda v: builtin_round(v)),
        "sum": aggregate(total), "count": aggregate(len), "max": aggregate(lambda vs: max(vs) if vs else None), "min": aggregate(lambda vs: min(vs) if vs else None),
        "avg": aggregate(lambda vs: sum(vs) / float(len(vs)) if vs else None), "shiftLeft": lambda c, n: unary(asname(c), lambda v: wrap(v << n)), "shiftRight": lambda c, n: unary(asname(c), lambda v: v >> n),
        "shiftleft": lambda c, n: unary(asname(c), lambda v: wrap(v << n)), "shiftright": lambda c, n: unary(asname(c), lambda v: v >> n),
        "factorial": lambda c: unary(asname(c), lambda v: math.factorial(tolong(v)) if 0 <= tolong(v) <= 20 else None), "signum": mathfn(lambda v: (v > 0) - (v < 0)),
        "pow": math2(power), "hypot": math2(math.hypot), "atan2": math2(math.atan2), "degrees": mathfn(math.degrees), "radians": mathfn(math.radians),
        "log": lambda a, b=None: mathfn(math.log, 0)(a), "log10": mathfn(math.log10, 0), "log2": mathfn(lambda v: math.log(v, 2), 0), "log1p": mathfn(math.log1p, -1),
    }
    for n in ("acos", "asin", "atan", "cos", "cosh", "exp", "expm1", "sinh", "sin", "sqrt", "tanh", "tan"):
        table[n] = mathfn(getattr(math, n))
    for n, f in table.items():
        setattr(m, n, f)
    return m


builtin_round = round


class Grouped(object):
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols

    def agg(self, *aggs):
        if not aggs:
            raise AssertionError("exprs should not be empty")
        if any(a._agg is None for a in aggs):
            raise AnalysisException("not an aggregate")
        groups = []
        index = {}
        for r in self.rows:
            k = tuple(c._f(r) for c in self.cols)
            h = repr(k)      # NaN groups with NaN, -0.0 with 0.0
            h = h.replace("-0.0", "0.0")
            if h not in index:
                index[h] = len(groups)
                groups.append((k, []))
            groups[index[h]][1].append(r)
        if not self.cols:
            groups = [((), self.rows)]
        names = [c._name for c in self.cols] + ["agg%d" % i for i in range(len(aggs))]
        rows = [dict(zip(names, list(k) + [a._agg(rs) for a in aggs])) for k, rs in groups]
        return DataFrame(rows[::-1], names)     # no order is promised


class DataFrame(object):
    def __init__(self, rows, columns):
        self._rows, self.columns = rows, list(columns)

    def __getitem__(self, n):
        if not isinstance(n, str):
            raise TypeError("unexpected item type: %s" % type(n))
        if n not in self.columns:
            raise AnalysisException('Cannot resolve column name "%s" among (%s)' % (n, ", ".join(self.columns)))
        return Column(lambda r: r[n], n)

    def __getattr__(self, n):
        if n.startswith("_") or n not in self.columns:
            raise AttributeError("'DataFrame' object has no attribute '%s'" % n)
        return self[n]

    def select(self, *cols):
        cols = [asname(c) for c in (cols[0] if len(cols) == 1 and isinstance(cols[0], list) else cols)]
        names = [c._name for c in cols]
        return DataFrame([dict((c._name, c._f(r)) for c in cols) for r in self._rows], names)

    def withColumn(self, name, c):
        return DataFrame([dict(r, **{name: c._f(r)}) for r in self._rows], [n for n in self.columns if n != name] + [name])

    def filter(self, c):
        return DataFrame([r for r in self._rows if boolean(c._f(r)) is True], self.columns)

    where = filter

    def groupBy(self, *cols):
        return Grouped(self._rows, [asname(c) for c in (cols[0] if len(cols) == 1 and isinstance(cols[0], list) else cols)])

    groupby = groupBy

    def agg(self, *aggs):
        return Grouped(self._rows, []).agg(*aggs)

    def collect(self):
        return [Row([r[n] for n in self.columns], self.columns) for r in self._rows]

    def count(self):
        return len(self._rows)

    def cache(self):
        return self

    persist = unpersist = cache


DataFrame.__module__ = "pyspark.sql.dataframe"


class PandasFrame(object):
    """What a fill may use of a pandas frame: columns, and a column's values."""

    def __init__(self, cols):
        self._cols = cols
        self.columns = sorted(cols)

    def __getitem__(self, n):
        out = types.SimpleNamespace()
        out.values = self._cols[n]
        out.to_numpy = lambda: self._cols[n]
        return out

    def __len__(self):
        return len(next(iter(self._cols.values()))) if self._cols else 0


PandasFrame.__name__ = "DataFrame"
PandasFrame.__module__ = "pandas.core.frame"


def install():
    ps, sql = types.ModuleType("pyspark"), types.ModuleType("pyspark.sql")
    fcns, dfm = functions(), types.ModuleType("pyspark.sql.dataframe")
    dfm.DataFrame = sql.DataFrame = DataFrame
    sql.Column, sql.Row = Column, Row
    ps.sql, sql.functions, sql.dataframe = sql, fcns, dfm
    for n, m in (("pyspark", ps), ("pyspark.sql", sql), ("pyspark.sql.functions", fcns), ("pyspark.sql.dataframe", dfm)):
        sys.modules[n] = m


def pyvalue(v):
    return v.item() if isinstance(v, numpy.generic) else v


def frame(rows, fields):
    return DataFrame([dict((f, pyvalue(r[f])) for f in fields) for r in rows], fields)


# ------------------------------------------------------------------ what is filled
B, BH, BN, BO, BZ = ["bin", "x", 4, 0, 2, "UONL"], ["bin", "x", 4, 0, 2, "_ONH"], ["bin", "x", 4, 0, 2, "U_NL"], ["bin", "x", 2, 0, 2, "___L"], ["bin", "z", 2, 0, 4, "__NL"]
S, SH, SN = ["split", "x", [0, 0.5, 2], "UONL"], ["split", "x", [0, 0.5, 2], "U__H"], ["split", "z", [0, 1, 3], "__NL"]
I1, I2 = ["intbin", "i", 0, 2, "UO"], ["intbin", "i", 0, 1, "__"]
I3, I4 = ["intbin", "i", 0, 1, "_O"], ["intbin", "i", 0, 1, "U_"]
C1, C2 = ["cut", "p"], ["cut", "z > 1"]
G, GI, GB, GH = ["groupby", "g"], ["groupby", "i"], ["groupbin", "z", 2, 0, "NL"], ["groupbin", "z", 0.5, 0.25, "_H"]
MIXES = [[B], [BH], [BN], [BO], [S], [SH], [SN], [I1], [I2], [I3], [I4], [C1], [C2], [G], [GI], [GB], [GH], [G, GB], [GB, G], [G, B], [GB, BH], [G, GI, BO], [B, C1], [C2, BO, I2], [SN, BH, C1], [G, GH, SN, C2], [GI, I3, BN], [S, SN]]
MIXES += [[["bin", "x", 4, 0, 2, f]] for f in BINFLAGS] + [[["split", "z", [0, 1, 3], f], C1] for f in BINFLAGS]
PROFILES = [[], [["profile", "y"]], [["profile", "y"], ["profile", "z + y"]]]
WEIGHTS = [{}, {"weight": "w"}, {"filter": "z > 0"}, {"filter": "p"}, {"weight": 2}, {"weight": "w*k", "filter": "not p or z < 2", "defs": {"k": "1 + y"}}, {"weight": 0.5, "filter": "p and z > 0"}]
VALS = {"x": [0.25, 0.5, 0.0, 2.0, 7.0, -1.0, 1.0, 1e12, -1e12, 1e300, -1e300, NAN], "z": [0.5, 2.5, -3.0, 1.0, 3.0, 0.0], "i": [0, 1, 2, 5, -2], "g": ["a", "bb", ""], "y": [0.5, -2.0, 3.0], "w": [0.5, 3.0, 0.0, -1.0], "p": [True, False]}
EXPRS = ["x + y", "x - y", "x*y", "2*x - 3*y + 1", "x*x", "x**2", "x**3*y", "-x", "(x + 1)*(y - 2)", "x*y - x*2", "abs(x)", "max(x, y)", "min(x, y)", "sqrt(x*x)", "floor(x)", "ceil(x)", "exp(x/8)", "sin(x)", "cos(x)", "tan(y)",
         "where(p, x, y)", "where(x > y, 1, 2)", "where(x < 1 and not p, x, -y)", "hypot(x, y)", "arctan2(x, y)", "x*pi", "x/2", "x/(y*y + 1)", "k*x", "pow(x*x, 0.5)", "log(x*x + 1)", "x % 3", "mod(x, 3)", "x % -2", "sinh(x/8)", "fabs(y)",
         "expm1(y/8)", "log1p(y*y)", "log10(x*x + 1)", "tanh(x)", "rint(x)", "e + x", "log2(x*x + 1)", "deg2rad(x)", "rad2deg(x)"]
LOGIC = ["p", "not p", "x > 1", "x >= y", "x < y and p", "p or x > 1", "not (p or x > 1)", "x == 1", "x != 1", "g == 'a'", "g != 'a'", "g in {'a', 'b'}", "g not in {'a', 'b'}", "0 < x < 2", "x in {1, 2.5}", "x + y > 1", "q", "not (x > 1 and p)", "g < 'b'"]
EVALS = {"x": [0.5, 1.0, -1.5, 2.5, -3.0, 0.0], "y": [0.25, 1.0, -2.0], "p": [True, False], "g": ["a", "b", "c"]}
PYENV = {"fmod": math.fmod, "mod": lambda a, b: a % b, "sqrt": math.sqrt, "exp": math.exp, "sin": math.sin}
POOL = [([B], {}), ([G, GB], {"weight": "w"}), ([S, C1, ["profile", "y"]], {"filter": "p"}), ([["profile", "y"]], {"weight": 2}), ([GI, BN], {}), ([C2], {"weight": "w", "filter": "z > 0"})]


class Check(object):
    id = "C20"
    case_timeout = 300
    assumptions = ["pandas and pyspark are not installed: a stand-in interprets Spark's documented column semantics row by row (no code generation, no distribution, no order of the collected groups)",
                   "frames have no nulls; values are finite, except NaN in numeric bin and split axes; cuts, filters, weights, profiles and group axes only see finite values (Spark orders NaN above all numbers)",
                   "functions for which the library announces NotImplementedError on Spark are left out"]

    def bounds(self, tier):
        return {"axis_mixes": len(MIXES), "profiles": len(PROFILES), "weights": len(WEIGHTS), "expressions": len(EXPRS), "logical_expressions": len(LOGIC), "book_pool": len(POOL),
                "rows": "each alone, all, both directions, two fills, after an array fill", "alphabet": dict((k, [repr(z) for z in v]) for k, v in VALS.items())}

    def cases(self, tier):
        out = [["hist", m, p, w] for m in range(len(MIXES)) for p in range(len(PROFILES)) for w in range(len(WEIGHTS))]
        out += [["hist", -1, p, w] for p in (1, 2) for w in range(len(WEIGHTS))]
        out += [["expr", k, i] for k in ("axis", "logic") for i in range(len(EXPRS if k == "axis" else LOGIC))]
        out += [["book", i, j] for i in range(len(POOL)) for j in range(len(POOL))]
        out += [["option", i, 0] for i in range(len(POOL) + 1)]
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        install()
        getattr(self, case[0])(case, cx)

    def compare(self, cx, h, ref, rows, what):
        obs = observe(h)
        cx.trace()
        cx.outcome(obshash(obs))
        d = diff(obs, ref.with_rows([(r, 1) for r in rows]).expected())
        if d is not None:
            raise core.Violation("%r %r %s\n%s" % (ref.specs, ref.opts(), what, d))

    def hist(self, case, cx):
        _, m, p, w = case
        ref = Ref((MIXES[m] if m >= 0 else []) + PROFILES[p], **WEIGHTS[w])
        fields = used(ref)
        # NaN only where only bin and split axes look at x
        vals = dict(VALS)
        rows = [dict(zip(fields, t)) for t in itertools.product(*[vals[f] for f in fields])]
        rows = spread(rows, 200 if cx.tier == "thorough" else 60)
        extra = sorted(set(fields) | set(["unused"]))
        rows = [dict(r, unused="u") for r in rows]
        for seq in [rows, rows[::-1]] + [[r] for r in rows[::1 if cx.tier == "thorough" else 3]] + [[]]:
            h = ref.hist()
            h.fill(frame(seq, extra))
            cx.step()
            cx.state((case, len(seq), repr(seq[:1])))
            self.compare(cx, h, ref, seq, "filled from a Spark frame of %d rows %r" % (len(seq), seq[:2]))
            h.fill(frame(seq, extra))
            cx.step()
            self.compare(cx, h, ref, seq + seq, "filled twice from a Spark frame of %d rows" % len(seq))
            h = ref.hist()
            h.fill(columns(rows, fields))
            c = h.copyonfill()
            h.fill(frame(seq, extra))
            cx.step(2)
            self.compare(cx, h, ref, rows + seq, "filled from arrays, then from a Spark frame")
            self.compare(cx, c, ref, rows, "copied before its source was filled from a Spark frame")
            if seq:
                h = ref.hist()
                h.fill(PandasFrame(columns(seq, extra)))
                cx.step()
                self.compare(cx, h, ref, seq, "filled from a pandas frame")
        for df in (frame(rows, extra), PandasFrame(columns(rows, extra))):
            h = ref.hist()
            try:
                h.fill(df, x=numpy.array([1.0]))
            except TypeError:
                pass
            else:
                raise core.Violation("a frame and keyword arguments were accepted together")
        cx.sample({"axes": ref.specs, "opts": ref.opts(), "rows": len(rows)})

    def expr(self, case, cx):
        _, kind, i = case
        defs = {"k": "2*y", "q": "x > 0 and p"}
        e = (EXPRS if kind == "axis" else LOGIC)[i]
        rows = [dict(zip("xypg", t)) for t in itertools.product(EVALS["x"], EVALS["y"], EVALS["p"], EVALS["g"])]
        fields = list("xypg")
        if kind == "axis":
            variants = [([["bin", e, 7, -3.3, 5.1, "UONL"]], {}), ([["split", e, [-2.2, 0.1, 0.9, 3.3], "_O_H"]], {}), ([["profile", e]], {}), ([C1], {"weight": e}), ([["groupbin", e, 1.7, 0.05, "NL"]], {}),
                        ([["cut", "%s > 0.3" % e]], {}), ([["groupby", "g"], ["profile", e]], {"weight": "y", "filter": "%s < 1.1" % e})]
        else:
            variants = [([["cut", e]], {}), ([["bin", "x", 2, 0, 2, "UONL"]], {"filter": e}), ([["cut", e]], {"weight": "y + 3", "filter": e}), ([["profile", "where(%s, 1, 2)" % e]], {})]
        for specs, opts in variants:
            if kind == "axis" and "weight" in opts and opts["weight"] == "y":
                opts = dict(opts, weight="y + 3")
            h = Hist(*[mk(s) for s in specs], defs=defs, **opts)
            twin = Hist(*[mk(s) for s in specs], defs=defs, **opts)
            twin.fill(dict((f, c) for f, c in columns(rows, fields).items()))
            cx.step(2)
            cx.state((e, specs, sorted(opts.items())))
            try:
                h.fill(frame(rows, fields))
            except NotImplementedError:
                raise core.Violation("%r %r cannot be filled from a Spark frame" % (specs, opts))
            obs = observe(h)
            cx.trace()
            cx.outcome(obshash(obs))
            d = diff(obs, observe(twin))
            if d is not None:
                raise core.Violation("%r %r filled from a Spark frame, compared with arrays\n%s" % (specs, opts, d))
        cx.sample({"expression": e})

    def book(self, case, cx):
        _, i, j = case
        refs = [Ref(*[POOL[n][0]], **POOL[n][1]) for n in (i, j)]
        allfields = ["x", "z", "i", "g", "y", "w", "p"]
        rows = spread([dict(zip(allfields, t)) for t in itertools.product(*[VALS[f][:4] for f in allfields])], 40)
        for nested in (0, 1, 2):
            hs = [r.hist() for r in refs]
            b = {0: lambda: Book(one=hs[0], two=hs[1]), 1: lambda: Book(one=hs[0], sub=Book(two=hs[1])), 2: lambda: Book(one=hs[0], two=hs[0], sub=Book(deep=Book(three=hs[1]), two=hs[1]))}[nested]()
            for fills in (1, 2):
                b.fill(frame(rows, allfields))
                cx.step()
                cx.state((case, nested, fills))
                for h, r in zip(hs, refs):
                    self.compare(cx, h, r, rows * fills, "in a book filled from a Spark frame")
            b.fill(PandasFrame(columns(rows, allfields)))
            b.fill(columns(rows, allfields))
            cx.step(2)
            for h, r in zip(hs, refs):
                self.compare(cx, h, r, rows * 4, "in a book filled from Spark, pandas and arrays")
        cx.sample({"pair": [i, j]})

    def option(self, case, cx):
        if case[1] < len(POOL):
            ref = Ref(POOL[case[1]][0], **POOL[case[1]][1])
            fields = used(ref)
            rows = spread([dict(zip(fields, t)) for t in itertools.product(*[VALS[f] for f in fields])], 30)
            for what, data in (("dict", columns(rows, fields)), ("Spark frame", frame(rows, fields))):
                h = Hist(*[mk(s) for s in ref.specs], fill=data, **ref.opts())
                cx.step()
                cx.state((case, what))
                self.compare(cx, h, ref, rows, "constructed with fill=%s" % what)
            return
        for spec in ONEAXIS:
            f = spec[1]
            for n in (0, 1, 7):
                rows = [{f: v} for v in spread(VALS[f], 7)[:n]]
                for what, data in (("array", columns(rows, [f])[f]), ("list", [r[f] for r in rows]), ("dict", columns(rows, [f]))):
                    if what == "list" and not n:
                        continue
                    ref = Ref([spec])
                    cx.step()
                    cx.state((spec, n, what))
                    self.compare(cx, Hist(mk(spec), fill=data), ref, rows, "constructed with fill=%s" % what)
        try:
            Hist(mk(B), mk(C1), fill=numpy.array([1.0]))
        except TypeError:
            pass
        else:
            raise core.Violation("a single array was accepted for two axes")


ONEAXIS = [B, BO, S, SN, I1, G, GB, C1, BZ]
CHECK = Check()
