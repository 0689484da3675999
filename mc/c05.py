"""C05: equivalent spellings name the same axis, different ones do not."""
import ast
import itertools
from fractions import Fraction

from mc.ref import *
from mc.c04 import trees, strip, BIN
from histbook.expr import Expr

# ------------------------------------------------------------------ the model: exact Laurent polynomials, and DNF
# a polynomial is {((name, power), ...): Fraction}; division is only modelled by monomials


class Undefined(Exception):
    pass


class NotMonomial(Exception):
    pass


def padd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0:
            del out[k]
    return out


def mmul(a, b):
    d = dict(a)
    for n, p in b:
        d[n] = d.get(n, 0) + p
    return tuple(sorted((n, p) for n, p in d.items() if p != 0))


def pmul(a, b):
    out = {}
    for (ka, va), (kb, vb) in itertools.product(a.items(), b.items()):
        k = mmul(ka, kb)
        out[k] = out.get(k, 0) + va * vb
        if out[k] == 0:
            del out[k]
    return out


def pinv(a):
    if len(a) == 0:
        raise Undefined()
    if len(a) > 1:
        raise NotMonomial()
    (k, v), = a.items()
    return {tuple((n, -p) for n, p in k): 1 / Fraction(v)}


def poly(node, leaf):
    if isinstance(node, ast.Constant):
        return {(): Fraction(node.value)} if node.value != 0 else {}
    if isinstance(node, ast.Name):
        return {((node.id, 1),): Fraction(1)}
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return padd({}, poly(node.operand, leaf), -1)
    if isinstance(node, ast.UnaryOp):
        return poly(node.operand, leaf)
    if isinstance(node, ast.BinOp):
        l, r = poly(node.left, leaf), poly(node.right, leaf)
        if isinstance(node.op, ast.Add):
            return padd(l, r)
        if isinstance(node.op, ast.Sub):
            return padd(l, r, -1)
        if isinstance(node.op, ast.Mult):
            return pmul(l, r)
        if isinstance(node.op, ast.Div):
            return pmul(l, pinv(r))
        if isinstance(node.op, ast.Pow):
            (k, n), = r.items()
            assert k == ()
            out = {(): Fraction(1)}
            base = l if n > 0 else pinv(l)
            for _ in range(abs(int(n))):
                out = pmul(out, base)
            return out
    if isinstance(node, ast.Call):
        # an opaque factor, identified by the normal forms of its arguments
        args = tuple(pkey(poly(a, leaf)) for a in node.args)
        return {(((node.func.id, args), 1),): Fraction(1)} if False else {((repr((node.func.id, args)), 1),): Fraction(1)}
    raise AssertionError(node)


def pkey(p):
    return tuple(sorted((repr(k), v) for k, v in p.items()))


def normal(text):
    return pkey(poly(ast.parse(text, mode="eval").body, None))


def relkey(op, a, b):
    """Mirrored comparisons are the same relation."""
    if op == ">":
        return relkey("<", b, a)
    if op == ">=":
        return relkey("<=", b, a)
    if op in ("==", "!="):
        a, b = sorted([a, b])
    return (op, a, b)


NEG = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", "in": "not in", "not in": "in"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in"}


def negate(lit):
    if lit[0] == "p":
        return ("p", lit[1], not lit[2])
    return relkey(NEG[lit[0]], lit[1], lit[2])


def dnf(node):
    """Set of sets of literals, by commutativity, associativity, De Morgan, double negation and distribution only."""
    if isinstance(node, ast.Name):
        return frozenset([frozenset([("p", node.id, True)])])
    if isinstance(node, ast.Compare):
        lits = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            o = OPS[type(op)]
            rk = ("set", tuple(sorted(e.value for e in right.elts))) if o in ("in", "not in") else pkey(poly(right, None))
            lits.append(relkey(o, pkey(poly(left, None)), rk))
            left = right
        return frozenset([frozenset(lits)])
    if isinstance(node, ast.UnaryOp):
        inner = dnf(node.operand)
        return frozenset(frozenset(negate(l) for l in pick) for pick in itertools.product(*[sorted(c) for c in inner]))
    if isinstance(node, ast.BoolOp):
        parts = [dnf(v) for v in node.values]
        if isinstance(node.op, ast.Or):
            return frozenset().union(*parts)
        return frozenset(frozenset().union(*pick) for pick in itertools.product(*parts))
    raise AssertionError(node)


def lkey(text):
    d = dnf(ast.parse(text, mode="eval").body)
    return tuple(sorted(tuple(sorted(c)) for c in d))


# ------------------------------------------------------------------ alphabets
def arith(tier):
    out = []
    for n in (0, 1, 2):
        out += list(trees(n, ["x", "y", "2", "1"], BIN))
    out += list(trees(1, ["x", "y", "2", "0"], BIN, True))
    out += list(trees(2, ["x", "2"], BIN, True)) if tier == "quick" else list(trees(2, ["x", "y", "2"], BIN, True))
    out += list(trees(3, ["x", "y", "2"], BIN))
    if tier == "thorough":
        out += list(trees(4, ["x", "y"], BIN)) + list(trees(4, ["x", "2"], ["+", "*", "/"]))
    return [strip(t) for t in out]


def powers(tier):
    base = ["x", "(-x)", "(2*x)", "(x*y)", "(x/y)", "(y/x/2)", "(-x*y)"]
    out = ["%s**%s" % (b, n) for b in base for n in (1, 2, 3, 4, "(-1)", "(-2)", "(-3)", "(-4)")]
    for b in base:
        for n in (1, 2, 3, 4):
            out.append("*".join([b] * n))
            out.append("1" + ("/" + b) * n)
    out += ["(%s)%s(%s)" % (a, o, b) for a in out[:56:3] for o in "+-*/" for b in ("x", "y*y", "x**2", "1/x")]
    return out


def calls(tier):
    fs = ["sin(%s)", "abs(%s)", "max(%s, y)", "max(y, %s)", "sin(%s)*x", "x*sin(%s)", "sin(%s) + x", "x + sin(%s)", "2*sin(%s) - sin(%s)", "sin(%s)/x", "cos(%s)", "sin(sin(%s))"]
    inner = ["x", "y", "x + y", "y + x", "x - y", "-(y - x)", "2*x", "x*2", "x + x", "x*y", "y*x", "(x + y)*2", "2*x + 2*y", "x*x/x", "x + 0", "x + 1 + 1", "2 + x"]
    return [f.replace("%s", i) for f in fs for i in inner]


ATOMS = ["x < y", "y > x", "x >= y", "y <= x", "x == y", "y == x", "x != y", "p", "q", "x + y < 2", "y + x < 2", "2 > x + y", "x in {1, 2}", "x in {2, 1}", "x not in {1, 2}", "x in {1}", "x in {3}", "0 < x < y", "0 < x and x < y"]
# relations that differ only in one place from another one
MORE = ["%s %s %s" % (a, o, b) for o in ("<", "<=", "==", "!=", ">", ">=") for a, b in itertools.permutations(["x", "y", "2", "x + y"], 2)] + ["%s %s {%s}" % (a, o, b) for o in ("in", "not in") for a in ("x", "y", "x + y") for b in ("1", "1, 2", "3")] + ["r"]


def logic(tier):
    def lt(n, atoms, neg):
        if n == 0:
            for a in atoms:
                yield "(%s)" % a
                if neg:
                    yield "(not (%s))" % a
                    yield "(not (not (%s)))" % a
            return
        for i in range(n):
            for a, o, b in itertools.product(list(lt(i, atoms, neg)), ("and", "or"), list(lt(n - 1 - i, atoms, neg))):
                yield "(%s %s %s)" % (a, o, b)
                if neg:
                    yield "(not (%s %s %s))" % (a, o, b)
    out = list(lt(0, ATOMS + MORE, True)) + list(lt(1, ATOMS[::2] if tier == "quick" else ATOMS, True)) + list(lt(2, ["p", "q", "x < y"], False)) + list(lt(2, ["p", "x < y"], True)) + list(lt(2, ["x in {1}", "x in {2}", "x in {1, 2}"], False))
    out += list(lt(3, ["p", "q"] if tier == "quick" else ["p", "q", "x < y"], False))
    if tier == "thorough":
        out += list(lt(2, ["p", "q", "x < y"], True))
    return [strip(t) for t in out]


def wide(tier):
    """Four and more fields: every order, left and right grouping, pairwise grouping, and factors expanded in several orders."""
    sets = [("a", "b", "c", "d"), ("a", "(-b)", "2*c", "d*a"), ("a*b", "b*c", "c*d", "(-a*b*c)"), ("sin(a)", "cos(b)", "a", "b*sin(a)"), ("a/b", "b/a", "c/(a*b)", "d"), ("3", "a", "(-2*a)", "b*b"), ("a*a*b", "a*b*b", "a*b", "a*a*b*b"),
            ("max(a, b)", "max(b, a)", "a*b", "2"), ("a/c", "b/c", "a/d", "b/d"), ("a", "a*b", "a*b*c", "a*b*c*d")]
    out = []
    for t in sets:
        for q in itertools.permutations(t):
            for o in "+*":
                out.append((" %s " % o).join(q))
                out.append("%s %s (%s %s (%s %s %s))" % (q[0], o, q[1], o, q[2], o, q[3]))
                out.append("(%s %s %s) %s (%s %s %s)" % (q[0], o, q[1], o, q[2], o, q[3]))
            out.append("%s - %s + %s - %s" % q)
            out.append("%s - (%s - (%s - %s))" % q)
            out.append("%s/(%s)*%s/(%s)" % (q[0], q[1], q[2], q[3]))
    five = "a", "b", "c", "d", "f"
    for q in list(itertools.permutations(five))[::(3 if tier == "quick" else 1)]:
        out += [" + ".join(q), "*".join(q), "%s*%s + %s*%s + %s" % q, "%s*%s/%s/%s/%s" % q]
    fac = ["(a + b)", "(c - d)", "(a - c)", "2", "b"]
    for n in (2, 3, 4):
        for q in itertools.permutations(fac, n):
            out.append("*".join(q))
            out.append(" + ".join("*".join((x,) + q[2:]) for x in expand(q[0], q[1])))
    return out


def expand(p, q):
    """Terms of the product of two sums."""
    ts = [[t if t[0] != "-" else "(%s)" % t for t in z.strip("()").replace(" - ", " -").replace(" + ", " ").split(" ")] for z in (p, q)]
    return ["%s*%s" % z for z in itertools.product(*ts)]


def widelogic(tier):
    out = []
    at = ["p", "x < y", "q", "x in {1, 2}", "not r"]
    for n in (3, 4, 5):
        for q in list(itertools.permutations(at, n))[::(1 if n < 5 or tier == "thorough" else 4)]:
            for o in (" and ", " or "):
                out.append(o.join(q))
                out.append("%s%s(%s)" % (q[0], o, o.join(q[1:])))
            out.append("(%s) and %s" % (" or ".join(q[1:]), q[0]))
            out.append("%s or %s" % (q[0], " and ".join(q[1:])))
            if n == 4:
                out.append("(%s or %s) and (%s or %s)" % q)
                out.append("not ((%s and %s) or (%s and %s))" % q)
    return out


KINDS = {"arith": arith, "powers": powers, "calls": calls, "logic": logic, "wide": wide, "widelogic": widelogic}
_memo = {}


def universe(kind, tier):
    """text -> class key; classes as in the model."""
    if (kind, tier) not in _memo:
        out, undefined = {}, []
        for t in KINDS[kind](tier):
            try:
                out[t] = lkey(t) if "logic" in kind else normal(t)
            except Undefined:
                pass
            except NotMonomial:
                undefined.append(t)
        _memo[kind, tier] = (out, undefined)
    return _memo[kind, tier]


POINTS = [{"x": Fraction(3), "y": Fraction(7)}, {"x": Fraction(-5, 3), "y": Fraction(11, 2)}, {"x": Fraction(13, 7), "y": Fraction(-2)}]


def exact(text):
    out = []
    for p in POINTS:
        try:
            out.append(frac(ast.parse(text, mode="eval").body, p))
        except ZeroDivisionError:
            out.append(None)
    return out


def frac(node, env):
    if isinstance(node, ast.Constant):
        return Fraction(node.value)
    if isinstance(node, ast.Name):
        return env[node.id]
    if isinstance(node, ast.UnaryOp):
        return -frac(node.operand, env)
    l, r = frac(node.left, env), frac(node.right, env)
    return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.Div: lambda: l / r}[type(node.op)]()


NSHARD = 16


class Check(object):
    id = "C05"
    case_timeout = 600
    chunk = 1
    assumptions = ["the equivalences claimed are those of Laurent polynomials with exactly representable constants (sums, products, quotients by products, integer powers of products), mirrored comparisons, and disjunctive normal form without absorption; for quotients by sums only soundness is checked",
                   "boolean fields and arithmetic fields are different fields"]

    def bounds(self, tier):
        return dict((k, {"texts": len(universe(k, tier)[0]), "classes": len(set(universe(k, tier)[0].values())), "soundness_only": len(universe(k, tier)[1])}) for k in KINDS)

    def cases(self, tier):
        out = []
        for k in KINDS:
            classes = sorted(set(universe(k, tier)[0].values()), key=repr)
            out += [[k, "complete", i] for i in range(min(NSHARD, len(classes)))]
            out.append([k, "sound", 0])
            out.append([k, "order", 0])
        out.append(["arith", "quotients", 0])
        return out

    def run(self, case, cx):
        kind, what, shard = case
        texts, loose = universe(kind, cx.tier)
        if what == "complete":
            byclass = {}
            for t, k in texts.items():
                if core.h64(k) % NSHARD == shard:
                    byclass.setdefault(k, []).append(t)
            for k, ts in byclass.items():
                first = Expr.parse(ts[0])
                again = Expr.parse(ts[0])
                if not (first == again and hash(first) == hash(again) and str(first) == str(again)):
                    cx.fail("parsing %r twice gives different expressions" % ts[0], ts[0])
                    continue
                ax = None
                cx.sample({"class_of": ts[0], "members": ts[:5]})
                for n, t in enumerate(ts):
                    e = Expr.parse(t)
                    cx.state((kind, t))
                    cx.step()
                    cx.trace()
                    if not (e == first and first == e and not e != first and hash(e) == hash(first) and not e < first and not first < e and e <= first and e >= first and not e > first):
                        cx.fail("%r and %r are equivalent but are not the same expression: %r and %r" % (ts[0], t, first, e), [ts[0], t])
                        break
                    if n < 40:
                        # and the axis is found under every spelling
                        if ax is None:
                            ax = Hist(bin(ts[0], 2, 0, 1) if "logic" not in kind else cut(ts[0]), groupby("zzz"))
                        try:
                            found = ax.axis[t] is ax.axis[1] and (ax.axis.bin(t) if "logic" not in kind else ax.axis.cut(t)) is ax.axis[1]
                        except IndexError:
                            found = False
                        if not found:
                            cx.fail("axis %r not found as %r" % (ts[0], t), [ts[0], t])
                            break
                cx.outcome(k)
        elif what == "sound":
            # texts that are equal for the library are in one class of the model
            seen = {}
            for t, k in texts.items():
                e = Expr.parse(t)
                cx.step()
                cx.trace()
                cx.state((kind, "sound", t))
                if e in seen:
                    k2, t2 = seen[e]
                    if k2 != k and ("logic" not in kind or table(t) != table(t2)):
                        cx.fail("%r and %r are the same expression %r for the library but differ" % (t, t2, e), [t, t2])
                        return
                else:
                    seen[e] = (k, t)
                cx.outcome(k)
        elif what == "quotients":
            seen = {}
            for t in loose + list(texts):
                try:
                    e = Expr.parse(t)
                except ZeroDivisionError:
                    continue
                cx.step()
                cx.trace()
                v = exact(t)
                cx.state((kind, "quot", t))
                if e in seen:
                    v2, t2 = seen[e]
                    if any(a is not None and b is not None and a != b for a, b in zip(v, v2)):
                        cx.fail("%r and %r are the same expression %r for the library but differ" % (t, t2, e), [t, t2])
                        return
                else:
                    seen[e] = (v, t)
        else:
            # the order used for sorting is a strict total order consistent with equality
            reps = {}
            for t, k in texts.items():
                reps.setdefault(k, t)
            reps = sorted(reps.values(), key=lambda t: (len(t), t))
            exprs = [(t, Expr.parse(t)) for t in reps[:(220 if cx.tier == "quick" else 700)]]
            below = []
            for a, ea in exprs:
                row = 0
                for j, (b, eb) in enumerate(exprs):
                    cx.step()
                    lt, gt, eq = ea < eb, eb < ea, ea == eb
                    if lt + gt + eq != 1:
                        cx.fail("order of %r and %r: < %r, > %r, == %r" % (a, b, lt, gt, eq), [a, b])
                        return
                    row |= bool(lt) << j
                below.append(row)
                cx.state((kind, "order", a))
            cx.trace()
            n = len(exprs)
            if sorted(builtin_popcount(r) for r in below) != list(range(n)):
                for i, j in itertools.product(range(n), repeat=2):
                    # i < j implies everything above j is above i
                    if below[i] >> j & 1 and below[j] & ~below[i]:
                        kk = (below[j] & ~below[i]).bit_length() - 1
                        cx.fail("order is not transitive: %r < %r < %r" % (exprs[i][0], exprs[j][0], exprs[kk][0]), [exprs[i][0], exprs[j][0], exprs[kk][0]])
                        return
                cx.fail("order is not total", None)


def builtin_popcount(n):
    return __import__("builtins").bin(n).count("1")


def table(t):
    out = []
    for x, y, p, q, r in itertools.product([-1, 0, 1, 2, 3], [-1, 0, 1, 2, 3], [False, True], [False, True], [False, True] if "r" in t.replace("or", "") else [False]):
        out.append(bool(pyeval(t, {"x": x, "y": y, "p": p, "q": q, "r": r})))
    return out


CHECK = Check()
