"""C04: the value that reaches a bin, profile, weight, filter or cut is the mathematical value of the expression."""
import itertools
import math

from mc.ref import *
import histbook.expr

E = histbook.expr.ExpressionError
BIN = ["+", "-", "*", "/"]
ROWS = [{"x": 0.5, "y": 2.0}, {"x": -1.5, "y": 0.25}, {"x": 3.0, "y": -2.0}, {"x": 7.0, "y": 5.0}, {"x": -2.0, "y": -4.0}, {"x": 1.0, "y": 1.0}, {"x": 0.0, "y": 3.0}, {"x": 2.0, "y": 0.0}]


def trees(n, leaves, ops, neg=False):
    """All fully parenthesised expressions with exactly n binary operators."""
    if n == 0:
        for a in leaves:
            yield a
            if neg:
                yield "(-%s)" % a
        return
    for i in range(n):
        left = list(trees(i, leaves, ops, neg))
        right = list(trees(n - 1 - i, leaves, ops, neg))
        for a, o, b in itertools.product(left, ops, right):
            yield "(%s %s %s)" % (a, o, b)
            if neg:
                yield "(-(%s %s %s))" % (a, o, b)


def strip(s):
    return s[1:-1] if s.startswith("(") and s.endswith(")") and matched(s) else s


def matched(s):
    d = 0
    for i, c in enumerate(s):
        d += (c == "(") - (c == ")")
        if d == 0 and i < len(s) - 1:
            return False
    return True


FUN = {
    "abs": (abs, None), "fabs": (abs, None), "arccos": (math.acos, (-1, 1)), "arccosh": (math.acosh, (1, 9)), "arcsin": (math.asin, (-1, 1)), "arcsinh": (math.asinh, None),
    "arctan": (math.atan, None), "arctanh": (math.atanh, (-0.9, 0.9)), "ceil": (math.ceil, None), "conj": (lambda v: v, None), "cos": (math.cos, None), "cosh": (math.cosh, None),
    "deg2rad": (math.radians, None), "rad2deg": (math.degrees, None), "exp2": (lambda v: 2.0 ** v, None), "exp": (math.exp, None), "expm1": (math.expm1, None), "floor": (math.floor, None),
    "isfinite": (lambda v: float(math.isfinite(v)), None), "isinf": (lambda v: float(math.isinf(v)), None), "isnan": (lambda v: float(v != v), None),
    "log10": (math.log10, (0.1, 9)), "log1p": (math.log1p, (-0.5, 9)), "log2": (math.log2, (0.1, 9)), "log": (math.log, (0.1, 9)), "rint": (round, None), "round": (round, None),
    "sign": (lambda v: (v > 0) - (v < 0), None), "sinh": (math.sinh, None), "sin": (math.sin, None), "sqrt": (math.sqrt, (0, 9)), "tanh": (math.tanh, None), "tan": (math.tan, None),
    "trunc": (math.trunc, None), "heaviside": (lambda v: 0.5 if v == 0 else float(v > 0), None), "erf": (math.erf, None), "erfc": (math.erfc, None), "gamma": (math.gamma, (0.5, 6)), "lgamma": (math.lgamma, (0.5, 6)),
    "factorial": (lambda v: math.factorial(int(v)), "int"),
}
LOOSE = {"erf": 2e-6, "erfc": 2e-6, "gamma": 1e-6, "lgamma": 1e-6, "factorial": 1e-6}
FUN2 = {
    "arctan2": math.atan2, "copysign": math.copysign, "fmod": math.fmod, "mod": lambda a, b: a % b, "hypot": math.hypot, "max": max, "min": min, "fmax": max, "fmin": min,
    "pow": lambda a, b: a ** b, "logaddexp": lambda a, b: math.log(math.exp(a) + math.exp(b)), "logaddexp2": lambda a, b: math.log2(2 ** a + 2 ** b),
    "heaviside": lambda a, m: m if a == 0 else float(a > 0),
}

# the same functions as they are called in the modules math and numpy
QUAL = dict((f, ["math." + f, "numpy." + f]) for f in "ceil copysign cos cosh exp expm1 floor fmod hypot isinf isnan log10 log1p log sinh sin sqrt tanh tan trunc".split())
QUAL.update((f, ["numpy." + f]) for f in "exp2 heaviside isfinite log2 logaddexp2 logaddexp rint round sign".split())
QUAL.update((f, ["math." + f]) for f in "erf erfc factorial gamma lgamma".split())
QUAL.update((f, ["numpy." + f, "math." + m]) for f, m in dict(arccos="acos", arccosh="acosh", arcsin="asin", arcsinh="asinh", arctan2="atan2", arctan="atan", arctanh="atanh").items())
QUAL.update(abs=["numpy.absolute", "numpy.abs"], conj=["numpy.conjugate", "numpy.conj"], rad2deg=["math.degrees", "numpy.degrees", "numpy.rad2deg"], deg2rad=["math.radians", "numpy.radians", "numpy.deg2rad"], fmax=["numpy.maximum"], fmin=["numpy.minimum"],
            pow=["math.pow", "numpy.power"], mod=["numpy.remainder", "numpy.mod"])

REJECT = ["x if y else 1", "x[0]", "x.y", "lambda: x", "[x, y]", "(x, y)", "x << 1", "x >> 1", "x @ y", "~x", "x & y", "x | y", "foo(x)", "x.foo(y)", "numpy.nosuch(x)", "sin(x, y)", "sin()", "max(x)", "max(x, y, 1)",
          "hypot(x, y, 2)", "sin(a=x)", "heaviside(x, middle=1)", "sin(*x)", "(x < y) + 1", "-(x < y)", "sqrt(x < y)", "(x and y) + 1", "x in [1, 2]", "x in y", "x in {y}", "x in 5", "x not in 5", "x in 'ab'", "5 in x", "x is y", "{'a': 1}", "{z for z in x}", "[z for z in x]",
          "x + 'a'", "'a' * 2", "x + None", "-'a'", "x < {1}", "x == {1, 2}", "not 5", "x < 1 and 3", "x < 1 or sin(y)", "f(x)(y)", "f'{x}'", "x ** 'a'", "where(x > 0, y)", "where(x > 0, y > 0, 1)", "(lambda z: z)(x)", "x < y and (x + (y > 1)) < 2", "x.y + 1", "sin(x[0])", "1 if x < 1 else 0", "x == 1 == [y]"]
RCTX = ["%s", "1 + (%s)", "(%s) * x", "abs(%s)", "(%s) > 0", "y > 0 and (%s)", "where(x > 0, %s, 1)", "not (%s)", "-(%s)"]
# wrapping a logical expression in these contexts is legal
LEGALCTX = {"%s": (), "y > 0 and (%s)": (), "not (%s)": ()}


def values(expr, rows, refvals, fill=None, defs=None):
    """Fills groupby(expr) with power-of-two weights: row index -> value that reached the axis."""
    h = Hist(groupby(expr), weight="wid", defs=defs)
    data = dict(columns(rows, sorted(rows[0])), wid=numpy.array([2.0 ** i for i in range(len(rows))]))
    h.fill(data)
    out = {}
    for k, v in h.table(recarray=False).items():
        n = int(v[0])
        for i in range(len(rows)):
            if n >> i & 1:
                out[i] = k
    return out


def cutvalues(expr, rows, defs=None):
    h = Hist(cut(expr), weight="wid", defs=defs)
    h.fill(dict(columns(rows, sorted(rows[0])), wid=numpy.array([2.0 ** i for i in range(len(rows))])))
    t = h.table(recarray=False)
    out = {}
    for b in (0, 1):
        n = int(t[b][0])
        for i in range(len(rows)):
            if n >> i & 1:
                out[i] = bool(b)
    return out


def real(v):
    return isinstance(v, (int, float)) and v == v and not math.isinf(v)


def refvalues(text, rows, exact=True):
    out = []
    for r in rows:
        try:
            v = pyeval(text, r)
        except (ZeroDivisionError, ValueError, OverflowError):
            v = None
        out.append(v if real(v) else None)
    return out


ATOMS = ["x < y", "x <= 1", "y > 0", "x >= y", "x == y", "x != 1", "0 < x <= 2", "x in {0, 2, 7}", "x not in {1, 3}", "p", "q", "2*x < y + 1", "x + y != 2", "s == 'a'", "s in {'a', 'b'}", "1 >= y"]
LROWS = [dict(x=float(x), y=float(y), p=p, q=q, s=s) for i, (x, y) in enumerate(itertools.product([0, 1, 2, 7], [-1, 1, 2])) for p, q, s in [(bool(i % 2), bool(i // 2 % 2), "abc"[i % 3]), (bool(i // 3 % 2), bool(i // 5 % 2), "cab"[i % 3])]]


def logictrees(n, atoms, neg):
    if n == 0:
        for a in atoms:
            yield "(%s)" % a
            if neg:
                yield "(not (%s))" % a
        return
    for i in range(n):
        left = list(logictrees(i, atoms, neg))
        right = list(logictrees(n - 1 - i, atoms, neg))
        for a, o, b in itertools.product(left, ("and", "or"), right):
            yield "(%s %s %s)" % (a, o, b)
            if neg:
                yield "(not (%s %s %s))" % (a, o, b)


DEFCTX = ["k + x", "x - k", "2*k", "k*k", "x/k", "k/x", "-k", "k**2", "k - k + x", "(k + 1)*(k - y)", "abs(k)", "k < 1", "0 <= k", "k == y", "k < x and not y < k", "max(k, x)", "where(k < 1, k, y)"]


# expressions of many fields; rows that tell every field, sign and multiplicity apart
WIDE = "abcdfghjkl"
WROWS = [dict((f, v) for f, v in zip(WIDE, vs)) for vs in ([1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0], [-3.0, 0.5, 5.0, -0.25, 7.0, 1.5, -11.0, 0.75, 13.0, -1.25], [0.5, -1.0, 2.0, -4.0, 0.25, 3.0, 1.0, -2.0, 6.0, 0.125])]
WLROWS = [dict((f, float((n >> i) & 1)) for i, f in enumerate(WIDE[:8])) for n in range(256)][::-1]
WLROWS = WLROWS[:4] + WLROWS[-12:] + WLROWS[4:-12:7]


def widegen(tier):
    out = []
    top = 7 if tier == "quick" else 10
    for n in range(3, top + 1):
        fs = WIDE[:n]
        for signs in itertools.product("+-", repeat=n) if n < 7 or tier == "thorough" else [t for t in itertools.product("+-", repeat=n) if t.count("-") in (0, 1, 3, n)]:
            out.append(" ".join(s + " " + f for s, f in zip(signs, fs)).lstrip("+ "))
        for ops in itertools.product("*/", repeat=n - 1) if n < 6 or tier == "thorough" else [t for t in itertools.product("*/", repeat=n - 1) if t.count("/") in (0, 1, n - 2, n - 1)]:
            out.append(fs[0] + "".join(o + f for o, f in zip(ops, fs[1:])))
        out.append("+".join("%d*%s" % (i + 2, f) for i, f in enumerate(fs)))
        out.append("-".join("%s*%s" % (f, g) for f, g in zip(fs, fs[1:] + fs[:1])))
        out.append("*".join("(%s + %d)" % (f, i) for i, f in enumerate(fs[:5])))
        out.append("(" * (n - 1) + fs[0] + "".join(" + %s)*%s" % (f, g) for f, g in zip(fs[1:], fs)))
        out.append("".join("(%s - " % f for f in fs) + "1" + ")" * n)
        out.append("".join("(%s/" % f for f in fs) + "3" + ")" * n)
        out.append("abs(" * n + " - ".join(fs) + " - 1)" + " - 1)" * (n - 1))
        out.append("".join("max(%s, " % f for f in fs) + "0" + ")" * n)
    # every multiplicity of factors and of terms
    for m in itertools.product(range(4 if tier == "quick" else 5), repeat=3):
        if sum(m) > 2:
            fs = "a" * m[0] + "b" * m[1] + "c" * m[2]
            out += ["*".join(fs), "1/(" + "*".join(fs) + ")", " + ".join(fs), "d - " + " - ".join(fs), "d/" + "/".join(fs[::-1])]
    for e in range(2, 9):
        out += ["a**%d" % e, "1/b**%d" % e, "*".join("a" * e) + "*b", "*".join(["(a + b)"] * min(e, 5))]
    return out


def widelogic(tier):
    out = []
    for n in range(3, 9):
        at = ["%s > 0" % f for f in WIDE[:n]]
        for ops in itertools.product(("and", "or"), repeat=n - 1) if n < 6 else [("and",) * (n - 1), ("or",) * (n - 1), (("and", "or") * n)[:n - 1], (("or", "and") * n)[:n - 1]]:
            out.append(at[0] + "".join(" %s %s" % z for z in zip(ops, at[1:])))
            out.append("not (" + out[-1] + ")")
        out.append(" < ".join(WIDE[:n]))
        out.append(" <= ".join(WIDE[:n]))
        out.append(" and ".join("not " + z for z in at))
        out.append(" or ".join("not " + z for z in at))
        out.append("a + 2*b + 4*c + 8*d in {%s}" % ", ".join(str((7 * k) % 16) for k in range(n)))
        out.append("a + 2*b + 4*c + 8*d not in {%s}" % ", ".join(str((5 * k) % 16) for k in range(n)))
        out.append(" or ".join("(%s and %s)" % z for z in zip(at, at[1:])))
        if n < 6:
            out.append(" and ".join("(%s or %s)" % z for z in zip(at, at[1:])))
    return out


def gen(kind, tier):
    if kind == "wide":
        return [["a", e] for e in widegen(tier)] + [["l", e] for e in widelogic(tier)] + [["d", n] for n in range(2, 9)]
    if kind == "arith":
        out = list(trees(1, ["x", "y", "1", "2", "0.5", "0"], BIN, True)) + list(trees(2, ["x", "y", "1", "2"], BIN)) + list(trees(3, ["x", "y", "1"] if tier == "quick" else ["x", "y", "1", "2"], BIN))
        if tier == "thorough":
            out += list(trees(2, ["x", "y", "1", "2"], BIN, True)) + list(trees(4, ["x", "y", "1"], BIN))
        else:
            out += list(trees(2, ["x", "2"], BIN, True))
        return out
    if kind == "power":
        base = ["x", "y", "(-x)", "(x*y)", "(x/y)", "(x + y)", "(x - 1)", "(2*x)", "(-(x*y))", "(x/2)", "(1/x)", "(-(x + 1))", "2", "(x**2)"]
        one = ["(%s**%s)" % (b, e) for b in base for e in ("0", "1", "2", "3", "4", "5", "(-1)", "(-2)", "(-3)", "(-4)", "0.5", "y", "2.0", "(-1.0)", "(1 + 1)")]
        one += ["(%s**%s)" % (b, e) for b in ("(-x - y)", "(-x - 2)", "(x + y - 1)") for e in ("1", "2", "3", "4", "(-1)", "(-2)", "(-3)")]
        one += ["(%s**%s)" % (b, e) for b in ("x", "(2*x)", "(x + y)", "(-x)", "(x/y)", "(x**2)") for e in ("1.5", "(-1.5)", "(-2.5)", "(-0.5)")]
        one += ["(%s %s %s)" % (a, o, b) for a in ("x", "(x + y)", "(4*x)", "7", "(-x)") for o in ("//", "%") for b in ("2", "y", "(-2)", "0.5", "3", "(y + 1)")]
        return one + ["(%s %s %s)" % (a, o, b) for a in one for o in BIN for b in ("x", "2")] + ["(%s %s %s)" % (b, o, a) for a in one for o in BIN for b in ("y",)]
    if kind == "logic":
        out = list(logictrees(0, ATOMS, True)) + ["(not (not (%s)))" % a for a in ATOMS] + list(logictrees(1, ATOMS[:12] if tier == "quick" else ATOMS, True))
        small = ["x < y", "x <= 1", "p"] if tier == "quick" else ["x < y", "x <= 1", "x in {0, 2, 7}", "p", "q"]
        out += list(logictrees(2, small, True))
        if tier == "thorough":
            out += list(logictrees(3, ["x < y", "p", "q"], True))
        else:
            out += list(logictrees(3, ["x < y", "p", "q"], False))
        return out
    if kind == "defs":
        ds = list(trees(0, ["x", "y", "2"], BIN)) + list(trees(1, ["x", "y", "2"], BIN))
        if tier == "thorough":
            ds += list(trees(2, ["x", "y", "2"], BIN))
        return [[c, strip(d)] for c in DEFCTX for d in ds]
    if kind == "pairs":
        es = [strip(e) for e in trees(1, ["x", "y", "2"], BIN)]
        es += [strip(e) for e in trees(2, ["x", "y"], BIN)][::(7 if tier == "quick" else 2)]
        return [[a, b] for a in es for b in es]
    if kind == "positions":
        return [strip(e) for e in trees(1, ["x", "y", "2"], BIN)] + [strip(e) for e in trees(2, ["x", "y", "2"], BIN)][::(3 if tier == "quick" else 1)]
    if kind == "dtypes":
        return [strip(e) for e in trees(1, ["x", "y", "2"], BIN, True)] + [strip(e) for e in trees(2, ["x", "y", "2"], BIN)][::(3 if tier == "quick" else 1)]
    if kind == "functions":
        return sorted(FUN) + ["2:" + f for f in sorted(FUN2)] + ["misc"]
    if kind == "reject":
        return REJECT
    raise AssertionError(kind)


KINDS = ["wide", "arith", "dtypes", "power", "logic", "defs", "pairs", "positions", "functions", "reject"]
SLICE = {"wide": 40, "arith": 250, "dtypes": 12, "power": 100, "logic": 250, "defs": 60, "pairs": 80, "positions": 20, "functions": 3, "reject": 8}
DTYPES = [("u1", 200), ("i1", 100), ("u2", 60000), ("i2", 30000), ("u4", 2 ** 20), ("i4", 2 ** 20), ("u8", 2 ** 20), ("i8", 2 ** 20), ("f2", 2048), ("f4", 2 ** 20 + 1)]
_memo = {}


def items(kind, tier):
    if (kind, tier) not in _memo:
        _memo[kind, tier] = gen(kind, tier)
    return _memo[kind, tier]


class Check(object):
    id = "C04"
    chunk = 2
    assumptions = ["fields are numeric, boolean or string arrays (arithmetic only on numeric ones, within the range of 64-bit integers); rows on which the expression is mathematically undefined, infinite or complex are left out; comparisons of NaN are left out where a 'not' is applied (the library documents not x<0 as 0<=x)",
                   "floating-point equality to 1e-9 (special functions approximated by the library: 2e-6)", "division by a constant zero is not part of the alphabet"]

    def bounds(self, tier):
        return dict((k, len(items(k, tier))) for k in KINDS)

    def cases(self, tier):
        return [[k, i] for k in KINDS for i in range(0, len(items(k, tier)), SLICE[k])]

    def run(self, case, cx):
        kind, start = case
        for it in items(kind, cx.tier)[start:start + SLICE[kind]]:
            cx.state((kind, it))
            try:
                getattr(self, "do_" + kind)(it, cx)
            except core.Violation as err:
                cx.fail(str(err), it)
            except Exception:
                cx.fail("%r\n%s" % (it, core.brief()), it)

    def compare(self, text, cx, rows=ROWS, defs=None, reftext=None, tol=1e-9, got=None):
        refs = refvalues(reftext or text, rows)
        use = [i for i, v in enumerate(refs) if v is not None]
        if not use:
            cx.count("undefined_everywhere")
            return
        if got is None:
            obs = values(text, [rows[i] for i in use], None, defs=defs)
        cx.step()
        cx.trace()
        for j, i in enumerate(use):
            v = obs.get(j)
            if v is None or not close(float(v), float(refs[i]), tol):
                raise core.Violation("%r defs=%r on %r: got %r expected %r" % (text, defs, rows[i], v, refs[i]))
        cx.outcome([round(float(refs[i]), 9) for i in use])

    def do_arith(self, e, cx):
        cx.sample(e)
        self.compare(strip(e), cx)

    def do_wide(self, it, cx):
        """Many fields, terms, factors, connectives and definitions."""
        kind, e = it
        if kind == "a":
            self.compare(e, cx, rows=WROWS)
        elif kind == "l":
            self.comparelogic(e, cx, rows=WLROWS)
        else:
            # this many definitions in one expression
            ds = [("k%d" % i, "%s*2 - %s" % (WIDE[i], WIDE[i + 1])) for i in range(e)]
            text = " + ".join("%d*k%d" % (i + 1, i) for i in range(e)) + " - k0*k1"
            full = text
            for n, d in ds:
                full = subst(full, n, d)
            for order in (ds, ds[::-1], ds[1::2] + ds[::2]):
                self.compare(text, cx, rows=WROWS, defs=dict(order), reftext=full)

    def do_dtypes(self, e, cx):
        """Narrow and unsigned arrays are numbers like any other."""
        for dt, big in DTYPES:
            rows = [dict(x=float(x), y=float(y)) for x, y in ((3, big), (big, 3), (big, big), (1, 2), (0, 5), (7, 0))]
            refs = refvalues(e, rows)
            use = [i for i, v in enumerate(refs) if v is not None]
            if not use:
                continue
            h = Hist(groupby(e), profile(e), weight="wid")
            h.fill(dict(columns([rows[i] for i in use], ["x", "y"], dict(x=dt, y=dt)), wid=numpy.array([2.0 ** i for i in range(len(use))])))
            cx.step()
            cx.trace()
            seen = {}
            for k, v in h.table(h.axis[1], recarray=False).items():
                for i in range(len(use)):
                    if int(v[0]) >> i & 1:
                        seen[i] = (k, v[2])
            for j, i in enumerate(use):
                if j not in seen or not close(float(seen[j][0]), float(refs[i]), 1e-9) or not close(float(seen[j][1]), float(refs[i]), 1e-9):
                    raise core.Violation("%r with arrays of %s on %r: got %r expected %r" % (e, dt, rows[i], seen.get(j), refs[i]))

    def do_power(self, e, cx):
        self.compare(strip(e), cx, tol=1e-8)

    def do_logic(self, e, cx):
        cx.sample(e)
        self.comparelogic(strip(e), cx)

    def comparelogic(self, e, cx, rows=LROWS, defs=None, reftext=None):
        obs = cutvalues(e, rows, defs)
        cx.step()
        cx.trace()
        exp = [bool(pyeval(reftext or e, r)) for r in rows]
        for i, r in enumerate(rows):
            if obs.get(i) is not exp[i]:
                raise core.Violation("%r defs=%r on %r: got %r expected %r" % (e, defs, r, obs.get(i), exp[i]))
        cx.outcome(exp)

    def do_defs(self, it, cx):
        ctx, d = it
        full = subst(ctx, "k", d)
        logical = "<" in ctx and "where" not in ctx or "==" in ctx
        for dv in (d, histbook.expr.Expr.parse(d)):
            if logical:
                if any(v is None for v in refvalues(d, LROWS)):
                    rows = [r for r, v in zip(LROWS, refvalues(d, LROWS)) if v is not None]
                else:
                    rows = LROWS
                if rows:
                    self.comparelogic(ctx, cx, rows=rows, defs={"k": dv}, reftext=full)
                    self.comparelogic(full, cx, rows=rows)
            else:
                self.compare(ctx, cx, defs={"k": dv}, reftext=full)
                self.compare(full, cx)
        # a definition of one name does not leak into the others
        if not logical:
            self.compare(ctx, cx, defs={"k": d, "kk": "x*1000", "j": "k"}, reftext=full)
        if d == "2" and not logical:
            self.compare(ctx, cx, defs={"k": 2}, reftext=full)
            self.compare(ctx, cx, defs={"k": 2.0}, reftext=full)

    def do_pairs(self, it, cx):
        """Two axes, a profile and a weight share subexpressions; each must still get its own value."""
        a, b = it
        ra, rb = refvalues(a, ROWS), refvalues(b, ROWS)
        use = [i for i in range(len(ROWS)) if ra[i] is not None and rb[i] is not None]
        if not use:
            return
        rows = [ROWS[i] for i in use]
        h = Hist(groupby(a), groupby(b), profile("(%s)*(%s)" % (a, b)), weight="wid")
        h.fill(dict(columns(rows, ["x", "y"]), wid=numpy.array([2.0 ** i for i in range(len(rows))])))
        cx.step()
        cx.trace()
        seen = {}
        for ka, sub in h.table(h.axis[2], recarray=False).items():
            for kb, cell in sub.items():
                n = int(cell[0])
                ids = [j for j in range(len(rows)) if n >> j & 1]
                for j in ids:
                    seen[j] = (float(ka), float(kb), float(cell[2]))
        for j, i in enumerate(use):
            want = (float(ra[i]), float(rb[i]), float(ra[i]) * float(rb[i]))
            if j not in seen or not all(close(g, w, 1e-9) for g, w in zip(seen[j], want)):
                raise core.Violation("axes %r, %r and their product on %r: got %r expected %r" % (a, b, ROWS[i], seen.get(j), want))

    def do_positions(self, e, cx):
        refs = refvalues(e, ROWS)
        for r, v in zip(ROWS, refs):
            if v is None:
                continue
            data = columns([r, r], ["x", "y"])
            cx.step(6)
            cx.trace(6)
            h = Hist(profile(e))
            h.fill(data)
            got = h.table(profile(e), recarray=False).tolist()
            if not close(got[2], v):
                raise core.Violation("profile %r on %r: got %r" % (e, r, got))
            h = Hist(bin("x", 1, -100, 100), weight=e)
            h.fill(data)
            got = h.table(recarray=False).tolist()[1]
            if not (close(got[0], 2 * v) and close(got[1], math.sqrt(2) * abs(v))):
                raise core.Violation("weight %r on %r: got %r" % (e, r, got))
            for thr in (0, 1, v):
                for op in ("<", ">=", "!=") if thr != v else ("<=",):
                    want = 2.0 if eval("v %s thr" % op) else 0.0
                    if thr == v and not dyadicval(v):
                        continue
                    if thr != v and abs(v - thr) < 1e-9 and not dyadicval(v):
                        continue
                    h = Hist(bin("x", 1, -100, 100), filter="%s %s %r" % (e, op, thr))
                    h.fill(data)
                    got = h.table(recarray=False).tolist()[1][0]
                    if got != want:
                        raise core.Violation("filter %s %s %r on %r: got %r expected %r" % (e, op, thr, r, got, want))
                    h = Hist(bin("x", 1, -100, 100), filter="%s %s %r" % (e, op, thr), weight=e)
                    h.fill(data)
                    got = h.table(recarray=False).tolist()[1][0]
                    if not close(got, want * v):
                        raise core.Violation("filter %s %s %r with weight %r on %r: got %r expected %r" % (e, op, thr, e, r, got, want * v))
            s = Hist(split(e, [v - 1, v - 1e-6, v + 1e-6, v + 1]), bin("x", 1, -100, 100, underflow=False, overflow=False, nanflow=False))
            s.fill(data)
            if s.table(recarray=False)[:, 0, 0].tolist() != [0, 0, 2, 0, 0, 0]:
                raise core.Violation("split(%r) on %r: %r" % (e, r, s.table(recarray=False)[:, 0, 0].tolist()))

    def do_functions(self, f, cx):
        if f == "misc":
            rows = [dict(x=float(x), y=float(y)) for x in (-2, 0, 1, 3) for y in (-1, 2)]
            for t in ["x*pi", "x + e", "2*pi*x - pi", "where(x > 0, x, y)", "where(x > 0 and y > 0, 1, 2)", "where(not x > 0, x*y, 7)", "where(x in {1, 3}, 1, 0)", "min(x, y)*max(x, y)", "abs(x - y)", "abs(-x)*abs(y)/2", "sqrt(abs(x)) + 1",
                      "numpy.sin(x)", "math.cos(x)", "where(x > inf, 1, 0)", "where(x < inf, 1, 0)", "max(x + 1, 2*y)", "max(x, max(y, 1))", "abs(x)**2", "sin(x)**2 + cos(x)**2", "floor(x/2)", "-abs(x)", "abs(x) - abs(x)", "sin(2*x)/sin(x + x + 1)"]:
                ref = t.replace("numpy.", "").replace("math.", "")
                env = dict(sin=math.sin, cos=math.cos)
                refs = []
                for r in rows:
                    refs.append(eval(ref.replace("where(", "W(").replace("sqrt(", "math.sqrt(").replace("floor(", "math.floor("), dict(env, W=lambda c, a, b: a if c else b, pi=math.pi, e=math.e, inf=INF, math=math), r))
                obs = values(t, rows, None)
                cx.step()
                cx.trace()
                for i in range(len(rows)):
                    if not close(float(obs[i]), float(refs[i])):
                        raise core.Violation("%r on %r: got %r expected %r" % (t, rows[i], obs[i], refs[i]))
            # a field with the name of a constant is the field
            h = Hist(groupby("e + x"))
            h.fill(e=[1.0], x=[2.0])
            if list(h.table()) != [3.0]:
                raise core.Violation("field e was not used: %r" % list(h.table()))
            # expressions of constants only
            for t, v in [("2*3", 6), ("sqrt(4)", 2), ("1 + max(2, 3)", 4), ("2**0.5", 2 ** 0.5), ("7//2", 3), ("7 % 4", 3), ("-2**2", -4), ("2**-1", 0.5), ("pi", math.pi), ("where(1 < 2, 5, 6)", 5)]:
                h = Hist(bin("x", 1, 0, 1), groupby(t))
                h.fill(x=[0.5, 0.5])
                got = list(h.table())
                if len(got) != 1 or not close(float(got[0]), v) or h.table(recarray=False)[got[0]][1][0] != 2:
                    raise core.Violation("%s: got %r expected %r" % (t, got, v))
                h = Hist(bin("x", 1, 0, 1), weight=t)
                h.fill(x=[0.5, 0.5])
                got = h.table(recarray=False)[1].tolist()
                if not close(got[0], 2 * v) or not close(got[1], abs(v) * math.sqrt(2)):
                    raise core.Violation("weight %s: got %r expected %r" % (t, got, 2 * v))
                h = Hist(bin("x", 1, 0, 1), profile(t))
                h.fill(x=[0.5, 0.5])
                got = h.table(profile(t), recarray=False)[1].tolist()
                if not close(got[2], v):
                    raise core.Violation("profile %s: got %r expected %r" % (t, got, v))
            for t in ["i ^ j", "i ^ 3", "(i + 1) ^ (2*j)", "(i ^ j) + 1", "(i ^ j)*(j ^ i) - i", "i ^ i", "(i ^ j) ^ j", "5 ^ i", "i*(j ^ 1)"]:
                for i, j in itertools.product([0, 1, 2, 5, 12], [0, 1, 3, 10]):
                    h = Hist(groupby(t), profile(t))
                    h.fill(i=numpy.array([i, i]), j=numpy.array([j, j]))
                    cx.step()
                    got, want = h.table(profile(t), recarray=False), eval(t)
                    if [float(k) for k in got] != [float(want)] or list(got.values())[0].tolist()[:1] + list(got.values())[0].tolist()[2:3] != [2, want]:
                        raise core.Violation("%s with i=%r j=%r: got %r expected %r" % (t, i, j, got, want))
            truths = [(t, eval(t)) for t in ["%s %s %s%s" % (a, o, b, c) for a in ("3 == 3", "1 < 2", "2 < 1") for o in ("and", "or") for b in ("1 < 2", "not 1 < 2", "2 <= 2") for c in ("", " and 1 < 2", " or 2 < 1", " and 2 < 1")]]
            truths += [(t.replace("T", "1 < 2").replace("F", "2 < 1"), eval(t, {"x": 0.5, "T": True, "F": False})) for t in ["%s %s %s" % (a, o, b) for o in ("and", "or") for pair in (
                ("x > 0", "T"), ("x > 0", "F"), ("x > 1", "T"), ("x > 1", "F"), ("(x > 1 or T)", "T"), ("(x > 0 and F)", "F"), ("not (x > 0 or F)", "F"), ("(x > 0 and T)", "(x < 1 or F)")) for a, b in (pair, pair[::-1])]]
            for t, v in [("1 < 2", True), ("2 <= 1", False), ("not 1 < 2", False), ("3 in {1, 3}", True)] + truths:
                cx.step()
                h = Hist(bin("x", 1, 0, 1), cut(t))
                h.fill(x=[0.5])
                got = h.table(recarray=False)[1][:, 0].tolist()
                if got != ([0, 1] if v else [1, 0]):
                    raise core.Violation("cut %s: %r" % (t, got))
                h = Hist(bin("x", 1, 0, 1), filter=t)
                h.fill(x=[0.5])
                got = h.table(recarray=False)[1][0]
                if got != (1 if v else 0):
                    raise core.Violation("filter %s: %r" % (t, got))
            return
        if f.startswith("2:"):
            g, fn = f[2:], FUN2[f[2:]]
            for a, b in itertools.product([-2.5, -1.0, 0.0, 1.0, 2.0, 3.5], [-2.0, -0.5, 0.0, 1.5, 3.0]):
                try:
                    want = fn(a, b)
                except (ZeroDivisionError, ValueError):
                    continue
                if not real(want):
                    continue
                for t in ["%s(x, y)" % g, "%s(x, %r)" % (g, b), "1 + %s(x + 0, y*1)" % g] + ["%s(x, y)" % q for q in QUAL.get(g, [])]:
                    obs = values(t, [{"x": a, "y": b}], None)
                    cx.step()
                    cx.trace()
                    w = want + (1 if t.startswith("1") else 0)
                    if not close(float(obs[0]), float(w)):
                        raise core.Violation("%s with x=%r y=%r: got %r expected %r" % (t, a, b, obs[0], w))
            if g == "mod":
                # where is the only function of three arguments
                for t in ("where(x > y, x, y)", "numpy.where(x > y, x, y)", "numpy.where(y > x, y, x) + 0"):
                    for a, b in ((1.5, 2.0), (3.0, -1.0)):
                        obs = values(t, [{"x": a, "y": b}], None)
                        if float(obs[0]) != max(a, b):
                            raise core.Violation("%s with x=%r y=%r: got %r" % (t, a, b, obs[0]))
            return
        fn, dom = FUN[f]
        grid = [-3.0, -1.5, -0.75, -0.25, 0.0, 0.25, 0.75, 1.0, 1.25, 2.0, 2.5, 5.0] if dom != "int" else [0.0, 1.0, 2.0, 3.0, 5.0, 7.0]
        if isinstance(dom, tuple):
            grid = [v for v in grid if dom[0] <= v <= dom[1]]
        if f in ("isfinite", "isinf", "isnan"):
            grid = grid + [INF, -INF, NAN]
        for v in grid:
            for t, w in [("%s(x)" % f, fn(v)), ("2*%s(x*1 + 0) - 1" % f, 2 * fn(v) - 1), ("%s(y - 3)" % f, fn(v))] + [("%s(x)" % q, fn(v)) for q in QUAL.get(f, [])]:
                obs = values(t, [{"x": v, "y": v + 3}, {"x": v, "y": v + 3}], None)
                cx.step()
                cx.trace()
                if not close(float(obs[0]), float(w), LOOSE.get(f, 1e-9)):
                    raise core.Violation("%s with x=%r: got %r expected %r" % (t, v, obs[0], w))

    def do_reject(self, e, cx):
        for ctx in RCTX:
            t = ctx % e
            if e in ("x and y",):
                continue
            for mkh in (lambda: Hist(bin(t, 2, 0, 2)), lambda: Hist(bin("x", 2, 0, 2), weight=t), lambda: Hist(bin("x", 2, 0, 2), filter=t), lambda: Hist(profile(t)), lambda: Hist(bin("x", 1, 0, 1), defs={"k": t}), lambda: Hist(bin("x", 1, 0, 1)).select(t)):
                cx.step()
                cx.trace()
                try:
                    mkh()
                except (E, SyntaxError):
                    continue
                except TypeError as err:
                    if "filter must be" in str(err):
                        continue
                    raise core.Violation("%r raised %r instead of an expression error" % (t, err))
                raise core.Violation("%r was accepted: %s" % (t, histbook.expr.Expr.parse(t)))


def dyadicval(v):
    return float(v) * 1024 == int(float(v) * 1024)


def subst(ctx, name, d):
    import re
    return re.sub(r"\b%s\b" % name, "(%s)" % d, ctx)


CHECK = Check()
