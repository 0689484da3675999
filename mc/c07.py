"""C07: select keeps exactly the bins of the data that satisfies the expression.

Model: atoms (relations between an axis expression and a constant) are evaluated on the rows; an expression is *aligned* if all probe rows of
every bin agree on it. Every accepted selection must be aligned, have exactly the satisfying rows' contents and exactly the matching keys, and
behave like a histogram with those bins under a further fill; every selection that is not aligned must be refused; selections at bin edges
with the axis's own inequality must be accepted.

one    every axis type x options x (operator, threshold) x spelling
pair   every ordered pair of accepted atoms, as a chain of two selects and as one expression with 'and'; for group axes also 'or'
multi  histograms of several axes, profiles and weights: every combination of up to three atoms of different axes
spell  the same threshold or axis spelled differently: arithmetic, named constants, definitions, equivalent expressions, cuts of compound expressions,
       the tolerance option"""
import itertools

from mc.ref import *

CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "==", "in": "not in", "not in": "in"}
MIRROR = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def lit(c):
    if isinstance(c, list):
        return "{" + ", ".join(repr(x) for x in c) + "}"
    if isinstance(c, float) and math.isinf(c):
        return "inf" if c > 0 else "-inf"
    if isinstance(c, float) and math.isnan(c):
        return "nan"
    return repr(c)


def holds(v, cmp, c):
    """An atom on a value: NaN satisfies nothing but '== nan' (documented)."""
    if isinstance(c, float) and math.isnan(c):
        return (isinstance(v, float) and math.isnan(v)) == (cmp == "==") if cmp in ("==", "!=") else False
    if isinstance(v, float) and math.isnan(v):
        return False
    return CMP[cmp](v, c)


# ------------------------------------------------------------------ axes, their probe values and thresholds
def near(e):
    return [e - 2.0 ** -12, e, e + 2.0 ** -12]


def probes(spec):
    k = spec[0]
    if k in ("bin", "split"):
        es = edges_of(spec)
        out = [-INF, es[0] - 100.0, es[-1] + 100.0, INF, NAN]
        for e in es:
            out += near(e)
        out += [(a + b) / 2 for a, b in zip(es[:-1], es[1:])]
        return out
    if k == "intbin":
        return [-INF, INF] + [float(i) for i in range(spec[2] - 3, spec[3] + 4)]
    if k == "groupbin":
        out = [-INF, INF, NAN]
        for i in range(-2, 3):
            out += near(i * float(spec[2]) + spec[3]) + [(i + 0.5) * float(spec[2]) + spec[3]]
        return out
    if k == "groupby":
        return {"g": ["a", "b", "cc", "d"], "i": [-1.0, 0.0, 1.0, 2.0, 5.0], "p": [True, False]}[spec[1]]
    if k == "cut":
        return {"p": [True, False], "x > 1": [0.0, 1.0, 1.5, NAN]}[spec[1]]
    raise AssertionError(spec)


def thresholds(spec):
    k = spec[0]
    if k in ("bin", "split"):
        es = edges_of(spec)
        return es + [(a + b) / 2 for a, b in zip(es[:-1], es[1:])] + [es[0] - 1.0, es[-1] + 1.0, es[0] - 2.0 ** -12, es[-1] + 2.0 ** -12, es[0] + 2.0 ** -12, -INF, INF, NAN, es[0] + 1e-14, es[-1] - 1e-14]
    if k == "intbin":
        return [float(i) for i in range(spec[2] - 2, spec[3] + 3)] + [spec[2] + 0.5, spec[3] - 0.25, -INF, INF]
    if k == "groupbin":
        return [i * float(spec[2]) + spec[3] for i in range(-2, 3)] + [0.5 * spec[2] + spec[3], spec[3] + 2.0 ** -12, -INF, INF, NAN, spec[3] + 1e-14]
    if k == "groupby":
        return {"g": ["a", "b", "bb", "zz"], "i": [0.0, 1.0, 0.5], "p": [True, False]}[spec[1]]
    raise AssertionError(spec)


def atoms(spec):
    """[cmp, constant] pairs; for cut axes the truth value asked for."""
    k = spec[0]
    if k == "cut":
        return [["==", True], ["!=", True]] if spec[1] == "p" else [["==", True]]
    out = [[c, t] for t in thresholds(spec) for c in ("<", "<=", ">", ">=", "==", "!=")]
    if spec[0] == "groupby" and spec[1] in "gi":
        ts = thresholds(spec)
        out += [["in", ts[:2]], ["not in", ts[1:3]], ["in", [ts[2]]]]
    return out


def snap(spec, c):
    """Thresholds within the tolerance of an edge mean that edge."""
    if isinstance(c, float) and not math.isnan(c) and not math.isinf(c):
        es = edges_of(spec) if spec[0] in ("bin", "split") else ([round((c - spec[3]) / spec[2]) * float(spec[2]) + spec[3]] if spec[0] == "groupbin" else [])
        for e in es:
            if abs(e - c) < 1e-12:
                return e
    return c


def mustaccept(spec, cmp, c):
    k = spec[0]
    if k in ("groupby", "cut"):
        return not (spec[1] == "p" and k == "groupby" and cmp not in ("==", "!="))
    isnan = isinstance(c, float) and math.isnan(c)
    f = flags_of(spec)
    if k in ("bin", "split"):
        nk = [key for key in refkeys(spec) if truth(spec, key, cmp, c)]
        if not nk:
            return False
        if isnan or math.isinf(c):
            return (cmp, c) in ((">=", -INF), ("<=", INF)) or (isnan and cmp in ("==", "!="))
        return snap(spec, c) in edges_of(spec) and cmp in (("<", ">=") if "L" in f else ("<=", ">"))
    if k == "groupbin":
        if isnan:
            return cmp in ("==", "!=")
        if math.isinf(c):
            return (cmp, c) in ((">=", -INF), (">", -INF), ("!=", -INF), ("<=", INF), ("<", INF), ("!=", INF))
        cc = snap(spec, c)
        return (cc - spec[3]) / spec[2] == round((cc - spec[3]) / spec[2]) and cmp in (("<", ">=") if "L" in f else ("<=", ">"))
    if k == "intbin":
        return math.isfinite(c) and c == round(c) and spec[2] <= c <= spec[3] and cmp in ("<", "<=", ">", ">=") and not (cmp == "<" and c == spec[2]) and not (cmp == ">" and c == spec[3])
    raise AssertionError(spec)


def truth(spec, key, cmp, c):
    """True/False if all probe values in the bin agree on the atom, None if the atom cuts through the bin."""
    got = set(holds(v, cmp, snap(spec, c)) for v in probes(spec) if refkey(spec, v) == key)
    if len(got) != 1:
        return None
    return got.pop()


def spell(expr, cmp, c, style):
    if style == 1 and cmp in MIRROR:
        return "%s %s %s" % (lit(c), MIRROR[cmp], expr)
    if style == 2:
        return "not %s %s %s" % (expr, NEG[cmp], lit(c))
    return "%s %s %s" % (expr, cmp, lit(c))


def text(spec, cmp, c, style=0):
    if spec[0] == "cut":
        if spec[1] != "p":
            return spec[1]
        return {("==", 0): "p", ("!=", 0): "not p", ("==", 1): "p == True", ("!=", 1): "p != True", ("==", 2): "not not p", ("!=", 2): "p == False",
                ("==", 3): "p != False", ("!=", 3): "not p == True", ("==", 4): "True == p", ("!=", 4): "not p != False", ("==", 5): "not p == False", ("!=", 5): "False == p"}[cmp, style]
    return spell(spec[1], cmp, c, style)


def fieldvalue(spec):
    return "x" if spec[0] == "cut" and spec[1] == "x > 1" else spec[1]


ONE = []
for fl in BINFLAGS:
    ONE.append(["bin", "x", 4, -1, 1, fl])
    ONE.append(["split", "x", [0, 1, 4], fl])
for fl in BINFLAGS:
    if fl[:3] != "___":
        ONE.append(["bin", "x", 0, 1, 1, fl])
        ONE.append(["split", "x", [1], fl])
    ONE.append(["bin", "x", 1, 0, 8, fl])
for fl in INTFLAGS:
    ONE.append(["intbin", "i", 5, 8, fl])
    ONE.append(["intbin", "i", 0, 0, fl])
for fl in GBFLAGS:
    ONE.append(["groupbin", "x", 2, 0, fl])
    ONE.append(["groupbin", "x", 0.5, 0.25, fl])
ONE += [["groupby", "g"], ["groupby", "i"], ["groupby", "p"], ["cut", "p"], ["cut", "x > 1"]]

MULTI = [
    ([["bin", "x", 4, -1, 1, "UONL"], ["split", "y", [0, 1, 4], "_ONH"]], {}),
    ([["groupby", "g"], ["bin", "x", 4, -1, 1, "UO_L"], ["profile", "t"]], {"weight": "w"}),
    ([["groupby", "g"], ["groupbin", "x", 2, 0, "NL"], ["cut", "p"]], {"filter": "w > 0.6"}),
    ([["intbin", "i", 5, 8, "UO"], ["cut", "p"], ["bin", "x", 4, -1, 1, "U_NL"]], {"weight": "w"}),
    ([["groupbin", "x", 2, 0, "NH"], ["groupby", "g"], ["intbin", "i", 5, 8, "__"], ["profile", "t"]], {}),
    ([["cut", "p"], ["profile", "t"], ["profile", "w"]], {"weight": 2.5}),
    ([["split", "x", [0, 1, 4], "UONL"], ["bin", "y", 4, -1, 1, "UONL"], ["cut", "p"]], {"weight": "w", "filter": "not p"}),
]


def multiatoms(spec):
    k = spec[0]
    if k in ("bin", "split"):
        es = edges_of(spec)
        lo, hi = ("<", ">=") if "L" in flags_of(spec) else ("<=", ">")
        return [[lo, es[1]], [hi, es[1]], [hi, es[0]], [lo, es[-1]], ["==", NAN], [">=", -INF], [hi, (es[0] + es[1]) / 2], [lo if lo == "<" else "<", es[1] + 0.125]]
    if k == "intbin":
        return [["<", 7.0], [">=", 6.0], ["<=", 5.0], [">", 20.0]]
    if k == "groupbin":
        lo, hi = ("<", ">=") if "L" in flags_of(spec) else ("<=", ">")
        return [[lo, 2.0], [hi, 0.0], ["==", NAN], ["!=", INF], [hi, 1.0]]
    if k == "groupby":
        return [["==", "a"], ["!=", "b"], ["in", ["a", "cc"]], [">", "a"], ["==", "zz"]]
    return atoms(spec)


PI = math.pi
ANGLE = ["bin", "x", 4, -PI, PI, "UONL"]
HALF = ["bin", "x", 4, -1, 1, "UONL"]
# values that are spelled in several ways, all meaning the same double (up to the tolerance)
SPELLED = [
    (ANGLE, PI / 2, ["pi/2", "0.5*pi", "pi*0.5", "pi - pi/2", "1.5707963267948966", "2*pi/4", "-(-pi/2)", "pi/2 + 0", "k", "-k + pi"], {"k": "pi/2"}),
    (ANGLE, -PI / 2, ["-pi/2", "pi/2 - pi", "-0.5*pi", "0 - pi/2", "pi/(-2)", "-1.5707963267948966", "k", "-pi - k"], {"k": "-pi/2"}),
    (ANGLE, -PI, ["-pi", "pi - 2*pi", "-1*pi", "pi*(-1)", "0 - pi", "-pi/1", "-pi - pi + pi"], {}),
    (ANGLE, PI, ["pi", "2*pi - pi", "1*pi", "+pi", "pi/1", "pi*2/2", "2*pi*0.5"], {}),
    (ANGLE, 0.0, ["0", "0.0", "-0.0", "pi - pi", "0*pi"], {}),
    (["split", "x", [1.0, math.e, 4.0], "UONH"], math.e, ["e", "2*e - e", "e/2 + e/2", "2.718281828459045", "e*1", "exp(1)*1"], {}),
    (HALF, 0.5, ["0.5", "1/2", "0.25 + 0.25", "1 - 0.5", "2*0.25", "5e-1", ".5", "1 - 1/2", "k", "k*1", "1 - k", "h/2"], {"k": "0.5", "h": "1"}),
    (HALF, -0.5, ["-0.5", "-1/2", "0.5 - 1", "-(1/2)", "-k", "k - 1"], {"k": "0.5"}),
    (HALF, -1.0, ["-1", "-1.0", "1 - 2", "0 - 1", "-k - k"], {"k": "0.5"}),
    (["split", "x", [0, 1, 4], "_O_H"], 4.0, ["4", "2*2", "2**2", "8/2", "5 - 1", "3 + 1", "16/2/2", "12 - 2*4"], {}),
    (["intbin", "i", 5, 8, "UO"], 6.0, ["6", "2*3", "5 + 1", "7 - 1", "12/2", "k", "6.0"], {"k": "6"}),
    (["groupbin", "x", 0.5, 0.25, "NL"], 0.75, ["0.75", "3/4", "0.5 + 0.25", "1 - 1/4", "3*0.25", "k"], {"k": "3/4"}),
    (["groupbin", "x", 2, 0, "NH"], -2.0, ["-2", "0 - 2", "2 - 4", "-4/2", "-2.0", "-k"], {"k": "2"}),
    (["groupbin", "x", 2, 0, "NH"], INF, ["inf", "2*inf", "inf + 1", "-(-inf)"], {}),
    (HALF, -INF, ["-inf", "-2*inf", "0 - inf", "1 - inf"], {}),
]
# axis expression, spellings that mean the same
SAME = [
    ("x + y", ["x + y", "y + x", "x - -y", "x + y + 0", "(y) + (x)", "s", "s + 0", "x - (0 - y)"], {"s": "x + y"}),
    ("s", ["x + y", "s", "y + x"], {"s": "y + x"}),
    ("x*x", ["x*x", "x**2", "(x)**2", "x*x*1"], {}),
    ("2*x", ["2*x", "x*2", "x + x", "2*x*1", "d", "3*x - x"], {"d": "x*2"}),
    ("-x", ["-x", "0 - x", "-1*x", "x*-1"], {}),
    ("x - y", ["x - y", "-y + x", "-(y - x)", "x + (-y)"], {}),
    ("x/4", ["x/4", "0.25*x", "x*0.25"], {}),
    ("x", ["x", "(x)", "+x", "1*x", "x + 0", "--x", "r", "x/1"], {"r": "x"}),
    ("max(x, y)", ["max(x, y)", "max((x), y)"], {}),
    ("abs(x)", ["abs(x)", "abs((x))"], {}),
]
# cut expression: (what selects the passing side, what selects the failing side or None, other things that select nothing or are answered correctly)
CUTS = [
    ("x > 1", ["x > 1", "1 < x", "x > 1.0", "x > k", "not x <= 1"], ["x <= 1", "not x > 1", "1 >= x", "x >= 1", "x < 1", "p", "x > 2"], {"k": "1"}),
    ("x > 1 and p", ["x > 1 and p", "p and x > 1", "1 < x and p", "p and not x <= 1", "not (x <= 1 or not p)", "c"],
     ["x > 1", "p", "x > 1 or p", "not (x > 1 and p)", "x <= 1 or not p", "x > 1 and not p", "x > 1 and p and y > 0", "x > 2 and p", "not p"], {"c": "x > 1 and p"}),
    ("p or y > 0", ["p or y > 0", "y > 0 or p", "0 < y or p", "not (not p and y <= 0)"],
     ["p", "y > 0", "p and y > 0", "not p and y <= 0", "not (p or y > 0)", "p or y >= 0", "p or y > 0 or x > 1", "not p"], {}),
    ("not p", ["not p"], ["x > 1", "p == False", "p != True", "p"], {}),
    ("p", ["p", "not not p", "p == True", "p != False", "q"], ["not x > 1", "x == True"], {"q": "p"}),
    ("x > y", ["x > y", "y < x", "x > y + 0", "not x <= y"], ["x >= y", "x < y", "y > x", "x - y > 0"], {}),
    ("g == 'a'", ["g == 'a'", "'a' == g", 'g == "a"'], ["g != 'a'", "g == 'b'", "g"], {}),
    ("g in {'a', 'b'}", ["g in {'a', 'b'}", "g in {'b', 'a'}", "g in {'a', 'b', 'a'}"], ["g in {'a'}", "g not in {'a', 'b'}", "g == 'a'"], {}),
    ("x > 1 and y > 0 or p", ["x > 1 and y > 0 or p", "p or y > 0 and x > 1", "(0 < y and 1 < x) or p"], ["p", "x > 1 and (y > 0 or p)", "x > 1 or p"], {}),
    ("0 < x < 2", ["0 < x < 2", "0 < x and x < 2", "x < 2 and x > 0", "2 > x > 0"], ["0 < x", "x < 2", "0 <= x < 2"], {}),
    ("isnan(x)", ["isnan(x)"], ["not isnan(x)", "isnan(y)", "x == nan"], {}),
]


class Check(object):
    id = "C07"
    case_timeout = 600
    assumptions = ["thresholds within the tolerance of an edge count as that edge", "a NaN value satisfies no selection but '== nan' (README)",
                   "where an aligned selection is not at an edge of the axis (for example x > 4 on an intbin from 5), refusing it is allowed"]

    def bounds(self, tier):
        return {"single_axes": len(ONE), "operators": 6, "spellings": 3, "pairs": "all ordered pairs of accepted atoms per axis" + ("" if tier == "thorough" else " (every flag combination for the 4-bin axes, one otherwise)"),
                "multi_axis_histograms": len(MULTI), "atoms_per_expression": 3,
                "respelled": {"thresholds": sum(len(z[2]) for z in SPELLED), "axis_expressions": sum(len(z[1]) for z in SAME), "cuts": sum(len(z[1]) + len(z[2]) for z in CUTS)}}

    def cases(self, tier):
        out = []
        for i in range(len(ONE)):
            out.append(["one", i])
            n = len(self.accepted(ONE[i]))
            for a in range(n):
                out.append(["pair", i, a])
        for i in range(len(MULTI)):
            specs = [s for s in MULTI[i][0] if s[0] != "profile"]
            for a in range(len(multiatoms(specs[0]))):
                for b in range(len(multiatoms(specs[1])) if len(specs) > 1 else 1):
                    out.append(["multi", i, a, b])
        out += [["spell", "threshold", i] for i in range(len(SPELLED))] + [["spell", "same", i] for i in range(len(SAME))] + [["spell", "cut", i] for i in range(len(CUTS))]
        out += [["spell", "tolerance", i] for i in range(4)]
        return sorted(out, key=lambda z: core.h64(z))

    def accepted(self, spec):
        return [[c, t] for c, t in atoms(spec) if mustaccept(spec, c, t)]

    def run(self, case, cx):
        getattr(self, case[0])(case, cx)

    # ------------------------------------------------------------------ one axis
    def make(self, spec):
        ref = Ref([spec])
        f = fieldvalue(spec)
        rows = [{f: v} for v in probes(spec)]
        h = ref.hist()
        h.fill(columns(rows, [f]))
        return ref, h, rows, f

    def attempt(self, h, expr):
        try:
            return h.select(expr)
        except Exception:
            return None

    def outcome(self, cx, h, ref, rows, spec, atomlist, expr, out, sub):
        """Compares one accepted selection with the model; atomlist is a list of [cmp, c] that all have to hold."""
        def ok(row):
            v = pyeval(spec[1], row) if spec[0] == "cut" else row[fieldvalue(spec)]
            return all(holds(v, c, snap(spec, t)) for c, t in atomlist)
        obs = observe(out)
        cx.trace()
        cx.state((spec, expr))
        cx.outcome(obshash(obs))
        keep = [r for r in rows if ok(r)]
        if spec[0] == "cut":
            n = float(len(keep))
            exp = {(): (n, n ** 0.5, n)} if n else {}
        else:
            exp = ref.with_rows([(r, 1) for r in keep]).expected()
        d = diff(obs, exp)
        if d is not None:
            raise core.Violation("%r selected by %r\n%s" % (spec, expr, d))
        if isfixed(spec) and spec[0] != "cut":
            keys = [obskey(k) for k in out.axis[0].keys()]
            want = [k for k in refkeys(spec) if all(truth(spec, k, c, t) for c, t in atomlist)]
            if keys != want:
                raise core.Violation("%r selected by %r has keys %r, expected %r" % (spec, expr, keys, want))
        # the selection is a histogram of its own: fill it again
        again = keep if isfixed(spec) and spec[0] != "cut" else rows
        f = fieldvalue(spec)
        if spec[0] == "cut":
            return
        out.fill(columns(rows, [f]))
        cx.step()
        d = diff(observe(out), ref.with_rows([(r, 1) for r in keep + again]).expected())
        if d is not None:
            raise core.Violation("%r selected by %r and filled again\n%s" % (spec, expr, d))

    def aligned(self, spec, rows, cmp, c):
        f = fieldvalue(spec)
        seen = {}
        for r in rows:
            v = pyeval(spec[1], r) if spec[0] == "cut" else r[f]
            k = refkey(spec, v)
            if k is None:
                continue
            t = holds(v, cmp, snap(spec, c))
            if seen.setdefault(k, t) != t:
                return False
        return True

    def one(self, case, cx):
        spec = ONE[case[1]]
        ref, h, rows, f = self.make(spec)
        before = observe(h)
        for cmp, c in atoms(spec):
            styles = [0, 1, 2]
            if isinstance(c, list):
                styles = [0, 2]
            elif isinstance(c, bool) and spec[0] == "groupby":
                styles = [0]
            elif spec[0] == "cut":
                styles = [0] if spec[1] != "p" else [0, 1, 2, 3, 4, 5]
            for style in styles:
                if style == 2 and isinstance(c, float) and math.isnan(c) and cmp not in ("==", "!="):
                    continue
                expr = text(spec, cmp, c, style)
                cx.step()
                out = self.attempt(h, expr)
                good = self.aligned(spec, rows, cmp, c)
                if out is None:
                    if mustaccept(spec, cmp, c):
                        raise core.Violation("%r cannot be selected by %r, which is at an edge of the axis" % (spec, expr))
                    cx.state((spec, expr))
                    cx.count("refused")
                else:
                    if not good:
                        raise core.Violation("%r was selected by %r, which cuts through a bin: %r" % (spec, expr, observe(out)))
                    cx.count("accepted")
                    self.outcome(cx, h, ref, rows, spec, [[cmp, c]], expr, out, [cmp, lit(c), style])
        for expr in ("nope < 1", "y == 'a'", "%s + 1 < 1" % f, "not nope", "%s < %s" % (f, f)):
            if self.attempt(h, expr) is not None:
                raise core.Violation("%r was selected by %r, which is no axis of it" % (spec, expr))
            cx.step()
        if diff(observe(h), before) is not None:
            raise core.Violation("%r was changed by selecting from it" % spec)
        # unfilled histograms can be selected, too
        for cmp, c in self.accepted(spec):
            out = ref.hist().select(text(spec, cmp, c))
            if observe(out) != {}:
                raise core.Violation("selecting from an unfilled %r gives contents" % spec)
            cx.step()
        cx.sample({"axis": spec, "atoms": len(atoms(spec))})

    def pair(self, case, cx):
        spec = ONE[case[1]]
        if spec[0] == "cut":
            return
        ref, h, rows, f = self.make(spec)
        acc = self.accepted(spec)
        c1, t1 = acc[case[2]]
        first = text(spec, c1, t1)
        full = cx.tier == "thorough" or (spec[0] in ("bin", "split") and len(refkeys(spec)) > 4 and spec[5 if spec[0] == "bin" else 3] in ("UONL", "_O_H", "U_NL", "___L")) or spec[0] not in ("bin", "split")
        for c2, t2 in (acc if full else acc[::3]):
            second = text(spec, c2, t2)
            possible = isgroup(spec) or any(all(truth(spec, k, c, t) for c, t in ((c1, t1), (c2, t2))) for k in refkeys(spec))
            expr = "%s and %s" % (first, second)
            cx.step(3)
            chained = self.attempt(h, first)
            chained = self.attempt(chained, second) if chained is not None else None
            direct = self.attempt(h, expr)
            for way, out in (("chain", chained), ("and", direct)):
                if out is not None:
                    self.outcome(cx, h, ref, rows, spec, [[c1, t1], [c2, t2]], (way, first, second), out, None)
            if spec[0] in ("bin", "split") and possible and chained is None and not (c1 == "==" or c2 == "=="):
                # an edge that is still inside of the selected range has to be selectable
                inner = snap(spec, t2) if isinstance(t2, float) else t2
                left = [k for k in refkeys(spec) if truth(spec, k, c1, t1) and k[0] == "I"]
                if any(inner in (k[1], k[2]) for k in left):
                    raise core.Violation("%r selected by %r cannot be selected further by %r" % (spec, first, second))
            if isgroup(spec):
                if direct is None or chained is None:
                    raise core.Violation("%r cannot be selected by %r" % (spec, expr))
                for third in [None] + acc[::5]:
                    parts = [[c1, t1], [c2, t2]] + ([third] if third else [])
                    cx.step()
                    expr = " or ".join(text(spec, c, t) for c, t in parts)
                    self.logic(cx, h, ref, rows, spec, expr, lambda v: any(holds(v, c, snap(spec, t)) for c, t in parts))
                    if third:
                        expr = "%s and (%s or %s)" % tuple(text(spec, c, t) for c, t in parts)
                        self.logic(cx, h, ref, rows, spec, expr, lambda v: holds(v, c1, snap(spec, t1)) and any(holds(v, c, snap(spec, t)) for c, t in parts[1:]))
                        expr = "%s or (%s and %s)" % tuple(text(spec, c, t) for c, t in parts)
                        self.logic(cx, h, ref, rows, spec, expr, lambda v: holds(v, c1, snap(spec, t1)) or all(holds(v, c, snap(spec, t)) for c, t in parts[1:]))
            elif spec[0] in ("bin", "split", "intbin"):
                # 'or' can only be selected if it is written as the axis's own range: any answer has to be right
                expr = "%s or %s" % (first, second)
                out = self.attempt(h, expr)
                if out is not None:
                    keep = [r for r in rows if holds(r[f], c1, snap(spec, t1)) or holds(r[f], c2, snap(spec, t2))]
                    d = diff(observe(out), ref.with_rows([(r, 1) for r in keep]).expected())
                    if d is not None:
                        raise core.Violation("%r selected by %r\n%s" % (spec, expr, d))

    def logic(self, cx, h, ref, rows, spec, expr, ok):
        out = h.select(expr)
        cx.trace()
        cx.state((spec, expr))
        keep = [r for r in rows if ok(r[fieldvalue(spec)])]
        d = diff(observe(out), ref.with_rows([(r, 1) for r in keep]).expected())
        if d is not None:
            raise core.Violation("%r selected by %r\n%s" % (spec, expr, d))

    # ------------------------------------------------------------------ several axes
    def multi(self, case, cx):
        _, i, a, b = case
        specs, opts = MULTI[i]
        axes = [s for s in specs if s[0] != "profile"]
        ref = Ref(specs, **opts)
        fields = sorted(set([fieldvalue(s) for s in axes] + ["p", "t", "w"]))
        vals = dict((fieldvalue(s), small(s)) for s in axes)
        vals.setdefault("p", [True, False])
        vals["t"] = [1.5, -2.0]
        vals["w"] = [0.5, 2.0]
        rows = []
        for n, t in enumerate(itertools.product(*[vals[f] for f in fields if f not in "tw"])):
            r = dict(zip([f for f in fields if f not in "tw"], t))
            r["t"], r["w"] = vals["t"][n % 2] + n % 3, vals["w"][(n // 2) % 2]
            rows.append(r)
        h = ref.hist()
        h.fill(columns(rows, fields))
        choices = [[multiatoms(axes[0])[a]], [None] + ([multiatoms(axes[1])[b]] if len(axes) > 1 else []), [None] + (multiatoms(axes[2]) if len(axes) > 2 else [])]
        for combo in itertools.product(*choices):
            parts = [(s, at) for s, at in zip(axes, combo) if at is not None]
            good = all(self.aligned(s, [{fieldvalue(s): v} for v in probes(s)], *at) for s, at in parts)
            possible = all(not isfixed(s) or s[0] == "cut" or any(truth(s, k, *at) for k in refkeys(s)) for s, at in parts)
            for order in itertools.permutations(parts):
                for chain in (False, True):
                    cx.step()
                    if chain:
                        out = h
                        for s, at in order:
                            out = self.attempt(out, text(s, *at)) if out is not None else None
                        expr = [text(s, *at) for s, at in order]
                    else:
                        expr = " and ".join(text(s, *at) for s, at in order)
                        out = self.attempt(h, expr)
                    cx.state((i, expr))
                    if out is None:
                        if good and possible and all(mustaccept(s, *at) for s, at in parts):
                            raise core.Violation("%r %r cannot be selected by %r" % (specs, opts, expr))
                        continue
                    if not good:
                        raise core.Violation("%r %r was selected by %r, which cuts through a bin" % (specs, opts, expr))
                    keep = [r for r in rows if all(holds(pyeval(s[1], r), c, snap(s, t)) for s, (c, t) in parts)]
                    left = [s for s in specs if not any(s is z and s[0] == "cut" for z, _ in parts)]
                    model = Ref(left, **opts)
                    obs = observe(out)
                    cx.trace()
                    cx.outcome(obshash(obs))
                    # rows that the axes of the original dropped are not in it
                    keep = [r for r in keep if ref.locate(r) is not None]
                    d = diff(obs, model.with_rows([(r, 1) for r in keep]).expected())
                    if d is not None:
                        raise core.Violation("%r %r selected by %r\n%s" % (specs, opts, expr, d))
                    # fill the selection again
                    out.fill(columns(rows, fields))
                    more = [r for r in rows if all(isgroup(s) or s[0] == "cut" or holds(pyeval(s[1], r), c, snap(s, t)) for s, (c, t) in parts)]
                    d = diff(observe(out), model.with_rows([(r, 1) for r in keep + more]).expected())
                    if d is not None:
                        raise core.Violation("%r %r selected by %r and filled again\n%s" % (specs, opts, expr, d))
        if diff(observe(h), ref.with_rows([(r, 1) for r in rows]).expected()) is not None:
            raise core.Violation("%r was changed by selecting from it" % specs)
        cx.sample({"axes": specs, "expression": expr})

    # ------------------------------------------------------------------ spelling
    def spell(self, case, cx):
        getattr(self, "spell_" + case[1])(case[2], cx)

    def spell_threshold(self, i, cx):
        spec, value, texts, defs = SPELLED[i]
        f = fieldvalue(spec)
        rows = [{f: v} for v in probes(spec)]
        ref = Ref([spec], defs=defs or None)
        h = ref.hist()
        h.fill(columns(rows, [f]))
        for cmp in ("<", "<=", ">", ">=", "==", "!="):
            good = self.aligned(spec, rows, cmp, value)
            must = mustaccept(spec, cmp, value)
            for t in texts:
                for expr in ("%s %s %s" % (f, cmp, t), "%s %s %s" % (t, MIRROR[cmp], f), "not %s %s %s" % (f, NEG[cmp], t)):
                    cx.step()
                    out = self.attempt(h, expr)
                    if out is None:
                        if must and "exp(" not in t:
                            raise core.Violation("%r %r cannot be selected by %r, which is at an edge of the axis" % (spec, defs, expr))
                        cx.state((spec, expr))
                        continue
                    if not good:
                        raise core.Violation("%r %r was selected by %r, which cuts through a bin: %r" % (spec, defs, expr, observe(out)))
                    self.outcome(cx, h, ref, rows, spec, [[cmp, value]], expr, out, None)
        cx.sample({"axis": spec, "threshold": value, "spellings": texts})

    def spell_same(self, i, cx):
        expr, texts, defs = SAME[i]
        vals = [-3.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.5, NAN]
        needy = "y" in expr or any("y" in d for d in defs.values())
        rows = [{"x": x, "y": y} for x in vals for y in (vals if needy else [0.0])]
        fields = ["x", "y"] if needy else ["x"]
        rows = [dict([(f, r[f]) for f in fields], q=float(n % 3 - 1)) for n, r in enumerate(rows) if "max" not in expr or r["x"] == r["x"] and r["y"] == r["y"]]
        fields.append("q")
        for spec, atomset in ((["bin", expr, 4, -1, 1, "UONL"], [["<", 0.5], [">=", -0.5], ["<", -1.0], [">=", 1.0], ["==", NAN]]),
                              (["split", expr, [-1, 0, 2], "_ONH"], [["<=", 0.0], [">", 0.0], [">", 2.0], ["==", NAN]]),
                              (["groupbin", expr, 0.5, 0, "NL"], [["<", 0.5], [">=", -0.5], ["!=", NAN], ["==", NAN]])):
            ref = Ref([spec, ["cut", "q > 0"]], defs=defs or None)
            h = ref.hist()
            h.fill(columns(rows, fields))
            d = diff(observe(h), ref.with_rows([(r, 1) for r in rows]).expected())
            if d is not None:
                raise core.Violation("%r with definitions %r\n%s" % (spec, defs, d))
            for t in texts:
                for cmp, c in atomset:
                    for sel in ("%s %s %s" % (t, cmp, lit(c)), "%s %s %s" % (lit(c), MIRROR[cmp], t), "q > 0 and %s %s %s" % (t, cmp, lit(c))):
                        cx.step()
                        out = self.attempt(h, sel)
                        if out is None:
                            raise core.Violation("%r with definitions %r cannot be selected by %r" % (spec, defs, sel))
                        keep = [r for r in rows if holds(pyeval(expr, withdefs(defs, r)), cmp, c) and ("q > 0 and" not in sel or r["q"] > 0)]
                        model = Ref([spec] if "q > 0 and" in sel else [spec, ["cut", "q > 0"]], defs=defs or None)
                        obs = observe(out)
                        cx.trace()
                        cx.state((expr, spec, sel))
                        cx.outcome(obshash(obs))
                        d = diff(obs, model.with_rows([(r, 1) for r in keep]).expected())
                        if d is not None:
                            raise core.Violation("%r with definitions %r selected by %r\n%s" % (spec, defs, sel, d))
        cx.sample({"axis": expr, "spellings": texts})

    def spell_cut(self, i, cx):
        expr, same, others, defs = CUTS[i]
        rows = [{"x": x, "y": y, "p": p, "g": g} for x in (-1.0, 0.5, 1.0, 1.5, 2.0, 3.0, NAN) for y in (-1.0, 0.0, 1.5, NAN) for p in (True, False) for g in "abc"]
        for clean, other in itertools.product((False, True), ([], [["bin", "z", 2, 0, 2, "UONL"]], [["groupby", "kk"]], [["bin", "z", 2, 0, 2, "UONL"], ["cut", "z > 1"]])):
            # NaN satisfies neither a comparison nor its negation: only positive spellings are asked with NaN in the data
            data = [dict(r, z=float(n % 4) - 1, kk="mn"[n % 2]) for n, r in enumerate(rows) if not clean or r["x"] == r["x"] and r["y"] == r["y"]]
            fields = set(["x", "y", "p", "g", "z", "kk"])
            for specs in ([["cut", expr]] + other, other + [["cut", expr]]):
                ref = Ref(specs, defs=defs or None)
                h = ref.hist()
                h.fill(dict((f, c) for f, c in columns(data, sorted(fields)).items() if f in h.fields))
                full = ref.with_rows([(r, 1) for r in data])
                d = diff(observe(h), full.expected())
                if d is not None:
                    raise core.Violation("%r with definitions %r\n%s" % (specs, defs, d))
                # an unaligned selection may be refused; an answered one has to be right
                for sel in same + (others if clean else []):
                    for sel in ([sel] if len(other) < 2 or " or " in sel or "not (" in sel or "isnan" in sel else [sel, sel + " and z > 1", "z > 1 and " + sel]):
                        cx.step()
                        out = self.attempt(h, sel)
                        cx.state((specs, sel))
                        if out is None:
                            if any(sel in (t, t + " and z > 1", "z > 1 and " + t) for t in same) and not (sel not in same and (" and " in expr or "< x <" in expr)):
                                raise core.Violation("%r with definitions %r cannot be selected by %r" % (specs, defs, sel))
                            continue
                        if any(isinstance(a, histbook.axis.cut) and a.expr == expr for a in out.axis):
                            raise core.Violation("%r with definitions %r was selected by %r, but kept the cut" % (specs, defs, sel))
                        plain = ([expr + sel[len(t):] for t in same if sel in (t, t + " and z > 1")] + [sel[:-len(t)] + expr for t in same if sel == "z > 1 and " + t] + [sel])[0]
                        keep = [r for r in data if pyeval(plain, r)]
                        left = [s for s in specs if s != ["cut", expr] and not (s == ["cut", "z > 1"] and "z > 1" in sel)]
                        obs = observe(out)
                        cx.trace()
                        cx.outcome(obshash(obs))
                        n = float(len(keep))
                        exp = Ref(left).with_rows([(r, 1) for r in keep]).expected() if left else ({(): (n, n ** 0.5, n)} if n else {})
                        d = diff(obs, exp)
                        if d is not None:
                            raise core.Violation("%r with definitions %r selected by %r\n%s" % (specs, defs, sel, d))
        cx.sample({"cut": expr, "spellings": same, "others": others})

    def spell_tolerance(self, i, cx):
        """A threshold matches an edge if it is closer than the given tolerance, and only then."""
        spec = [["bin", "x", 4, -1, 1, "UONL"], ["split", "x", [0, 1, 4], "UONH"], ["groupbin", "x", 1, 0, "NL"], ["bin", "x", 4, -1, 1, "_O_H"]][i]
        f = fieldvalue(spec)
        es = edges_of(spec) if spec[0] != "groupbin" else [-1.0, 0.0, 1.0]
        rows = [{f: v, "q": q} for e in es for v in (e - 0.25, e, e + 0.25) for q in (0.0, 1.0, 2.0)] + [{f: NAN, "q": 1.0}]
        lo, hi = ("<", ">=") if "L" in flags_of(spec) else ("<=", ">")
        ref, ref2 = Ref([spec]), Ref([spec, ["intbin", "q", 0, 2, "UO"]])
        h, h2 = ref.hist(), ref2.hist()
        h.fill(columns(rows, [f]))
        h2.fill(columns(rows, [f, "q"]))
        for tol in (None, 1e-12, 1e-6, 0.01, 0.1):
            for e in es:
                for off in (0.0, 1e-14, 1e-9, 1e-7, 1e-4, 0.005, 0.05, 0.2):
                    for sign in (-1, 1):
                        for cmp in (lo, hi):
                            c = e + sign * off
                            t = 1e-12 if tol is None else tol
                            one = "%s %s %r" % (f, cmp, c)
                            keep = [r for r in rows if holds(r[f], cmp, e)]
                            empty = isfixed(spec) and not any(truth(spec, k, cmp, e) for k in refkeys(spec))
                            # alone, and next to a selection on another axis, in either order
                            for expr, hist, rf, kept in [(one, h, ref, keep)] + [(x, h2, ref2, [r for r in keep if r["q"] >= 1]) for x in (one + " and q >= 1", "q >= 1 and " + one, "q >= 1 and (%s) and q >= 1" % one)]:
                                cx.step()
                                try:
                                    out = hist.select(expr) if tol is None else hist.select(expr, tolerance=tol)
                                except ValueError:
                                    out = None
                                cx.state((spec, expr, tol))
                                if out is None:
                                    if abs(c - e) < t and not empty:
                                        raise core.Violation("%r cannot be selected by %r with tolerance %r" % (spec, expr, tol))
                                    continue
                                cx.trace()
                                if abs(c - e) >= t and abs(c - e) > 1e-13:
                                    raise core.Violation("%r was selected by %r with tolerance %r" % (spec, expr, tol))
                                d = diff(observe(out), rf.with_rows([(r, 1) for r in kept]).expected())
                                if d is not None:
                                    raise core.Violation("%r selected by %r with tolerance %r\n%s" % (spec, expr, tol, d))
        cx.sample({"axis": spec, "tolerances": 5})


def small(spec):
    """A few values for every bin of the axis."""
    out, seen = [], {}
    for v in probes(spec):
        k = refkey(spec, v)
        if seen.get(k, 0) < 1 or (spec[0] == "groupby" and seen.get(k, 0) < 1):
            seen[k] = seen.get(k, 0) + 1
            out.append(v)
    return out[:9] if spec[0] != "cut" else out


CHECK = Check()
