"""C17: a small interpreter of Vega-Lite reads every specification back and compares what it shows with the histogram."""
import itertools
import json
import re

import sys
import types

from mc.ref import *
from mc.c02 import spread
from mc.c10 import snap
from histbook import overlay, beside, below, grid

# one axis of each kind, over its own field
KINDS = {
    "bin": lambda f: ["bin", f, 2, 0, 2, "UONL"],
    "binh": lambda f: ["bin", f, 3, -0.4, 0.7, "_O_H"],
    "bare": lambda f: ["bin", f, 1, -1, 1, "___L"],
    "intbin": lambda f: ["intbin", f, 0, 2, "UO"],
    "intbare": lambda f: ["intbin", f, -1, 0, "__"],
    "split": lambda f: ["split", f, [-1, 0, 3], "UONL"],
    "splith": lambda f: ["split", f, [0, 0.5, 2], "__NH"],
    "cut": lambda f: ["cut", f + " > 0.5"],
    "groupby": lambda f: ["groupby", "g" + f],
    "groupbin": lambda f: ["groupbin", f, 2, 0, "NL"],
}
NUMERIC = ("bin", "intbin", "split")        # displayed at numeric positions
MARKS = ("bar", "step", "area", "line", "marker")
CHANNELS = ("overlay", "stack", "beside", "below")
VALUES = [0.0, 1.0, -1.0, 0.5, 2.0, NAN, 0.7, 7.0]
NAMES = ["it's", 'b"q', "cc", "d", "d", "it's", "", "z\\"]
INTS = [0.0, 1.0, -1.0, 2.0, 7.0, INF, 0.0, -INF]
FIELDS = "xzuv"


def rows(n, kinds):
    out = []
    for i in range(n):
        r = {"y": float((i * 7) % 5) - 1.0, "w": [1.0, 0.5, 2.0, 0.0][i % 4]}
        for j, f in enumerate(FIELDS):
            k = (i // (1, 3, 5, 2)[j] + i * j) % 8
            # (an expression may see the field both as an integer axis and as a continuous one: integers only then)
            r[f] = (INTS if kinds[j:j + 1] and kinds[j].startswith("int") else VALUES)[k]
            r["g" + f] = NAMES[k]
        out.append(r)
    return out


# ------------------------------------------------------------------ the interpreter

class Undefined(object):
    def __repr__(self):
        return "undefined"

    def arith(self, other):
        return NAN
    __add__ = __sub__ = __radd__ = __rsub__ = __mul__ = arith


UNDEFINED = Undefined()
TOKEN = re.compile(r"""\s*(?:(?P<num>\d+\.?\d*(?:[eE][-+]?\d+)?)|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<name>[A-Za-z_$][\w$]*)|(?P<op>===|!==|==|!=|&&|\|\||<=|>=|[-+*/().,?:\[\]<>!]))""")


class JS(object):
    """Evaluates the expressions Vega-Lite transforms may contain."""

    def __init__(self, text):
        self.tokens, pos = [], 0
        text = text.strip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if m is None:
                raise core.Violation("not a Vega expression: %r at %d" % (text, pos))
            self.tokens.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
        self.pos = 0
        self.tree = self.ternary()
        if self.pos != len(self.tokens):
            raise core.Violation("not a Vega expression: %r" % text)

    def peek(self):
        return self.tokens[self.pos][1] if self.pos < len(self.tokens) and self.tokens[self.pos][0] != "str" else None

    def take(self, what=None):
        t = self.tokens[self.pos]
        if what is not None and (t[0] == "str" or t[1] != what):
            raise core.Violation("not a Vega expression: expected %r, found %r" % (what, t))
        self.pos += 1
        return t

    def ternary(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.take()
            a = self.ternary()
            self.take(":")
            b = self.ternary()
            return lambda d: a(d) if c(d) else b(d)
        return c

    LEVELS = [["||"], ["&&"], ["===", "!==", "==", "!="], ["<", "<=", ">", ">="], ["+", "-"], ["*", "/"]]
    OPS = {"===": lambda a, b: type(a) == type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b), "==": lambda a, b: a == b,
           "!==": lambda a, b: a != b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
           "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b if b else NAN, "||": lambda a, b: a or b, "&&": lambda a, b: a and b}

    def binary(self, level):
        if level == len(self.LEVELS):
            return self.unary()
        left = self.binary(level + 1)
        while self.peek() in self.LEVELS[level]:
            op = self.OPS[self.take()[1]]
            right = self.binary(level + 1)
            left = (lambda op, a, b: lambda d: op(a(d), b(d)))(op, left, right)
        return left

    def unary(self):
        if self.peek() == "-":
            self.take()
            x = self.unary()
            return lambda d: -x(d)
        if self.peek() == "!":
            self.take()
            x = self.unary()
            return lambda d: not x(d)
        kind, text = self.take()
        if kind == "num":
            v = float(text)
            return lambda d: v
        if kind == "str":
            v = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), text[1:-1])
            return lambda d: v
        if text == "(":
            x = self.ternary()
            self.take(")")
            return x
        if text == "datum":
            if self.peek() == ".":
                self.take()
                name = self.take()[1]
            else:
                self.take("[")
                q = self.take()
                name = q[1][1:-1]
                self.take("]")
            return lambda d: d.get(name, UNDEFINED)
        if text == "if":
            self.take("(")
            c = self.ternary()
            self.take(",")
            a = self.ternary()
            self.take(",")
            b = self.ternary()
            self.take(")")
            return lambda d: a(d) if c(d) else b(d)
        raise core.Violation("not a Vega expression: unexpected %r" % text)


_parsed = {}


def js(text):
    if text not in _parsed:
        if len(_parsed) > 5000:
            _parsed.clear()
        _parsed[text] = JS(text).tree
    return _parsed[text]


def transformed(data, transforms):
    out = []
    for d in data:
        d = dict(d)
        for t in transforms:
            if "calculate" in t:
                d[t["as"]] = js(t["calculate"])(d)
            elif "filter" in t:
                f = t["filter"]
                if isinstance(f, dict):
                    if set(f) == set(["field", "equal"]):
                        ok = d.get(f["field"], UNDEFINED) == f["equal"]
                    elif set(f) == set(["field", "oneOf"]):
                        ok = d.get(f["field"], UNDEFINED) in f["oneOf"]
                    else:
                        raise core.Violation("filter %r" % (f,))
                else:
                    ok = js(f)(d)
                if not ok:
                    break
            else:
                raise core.Violation("transform %r" % (t,))
        else:
            out.append(d)
    return out


def tree(spec, data=None, transforms=()):
    """The specification as nested [kind, children, options]; units are ["unit", spec, transformed data]."""
    if "data" in spec:
        data = spec["data"]["values"]
    transforms = tuple(transforms) + tuple(spec.get("transform", ()))
    for kind in "layer", "hconcat", "vconcat":
        if kind in spec:
            kids = []
            for s in spec[kind]:
                t = tree(s, data, transforms)
                if kind == "layer" and t[0] == "layer":
                    kids.extend(t[1])
                else:
                    kids.append(t)
            return [kind, kids, spec]
    return ["unit", spec, transformed(data, transforms)]


# ------------------------------------------------------------------ what a plot must show

def num(x):
    return ("%4g" % x).strip()


def label(key):
    if key[0] == "NaN":
        return "{NaN}"
    if key[0] == "I":
        _, lo, hi, cl, ch = key
        return "%s%s%s, %s%s" % ("[" if cl else "(", " " if lo == -INF else "", num(lo), num(hi), "]" if ch else ")")
    if key[0] == "b":
        return "pass" if key[1] else "fail"
    return str(key[1])


def displaykeys(spec):
    """Keys of a fixed axis as they are displayed: integer bins are shown as unit intervals around the integer."""
    if spec[0] == "intbin":
        return refkeys(["bin", spec[1], spec[3] - spec[2] + 1, spec[2] - 0.5, spec[3] + 0.5, spec[4] + "_L"], I=lambda *a: ("I",) + a)
    return refkeys(spec, I=lambda *a: ("I",) + a)


class Plot(object):
    """A plotting chain: the real plot and the description of what it must show."""

    def __init__(self, h, specs, chain, mark, opts, order=None, mentions=0):
        self.h, self.specs, self.chain, self.mark, self.opts, self.order = h, specs, chain, mark, opts, order
        axes = list(h.axis)
        self.axes = axes
        bins = [s for s in specs if not isprofile(s)]
        self.bins = bins

        def name(j, n):
            if (mentions + n) % 3 == 1:
                return axes.index(mk(bins[j]))
            if (mentions + n) % 3 == 2:
                return bins[j][1]
            return mk(bins[j])

        p = h
        for n, (c, j) in enumerate(chain):
            if c == "stack" and order is not None:
                p = p.stack(name(j, n), order=list(order))
            else:
                p = getattr(p, c)(name(j, n))
        o = dict(opts)
        if o.get("profile"):
            o["profile"] = (mk(o["profile"]), o["profile"][1], axes.index(mk(o["profile"])))[mentions % 3]
        if mark[0] == "heatmap":
            self.plot = p.heatmap(name(mark[1], 7), name(mark[2], 8), **o)
        else:
            self.plot = getattr(p, mark[0])(name(mark[1], 7), **o)

    def describe(self):
        return "%r %r .%r(%r)%s" % (self.specs, self.chain, self.mark, self.opts, "" if self.order is None else " order=%r" % (self.order,))

    def cells(self):
        """[(display keys by position in self.bins, column values)] of the projected histogram."""
        used = [j for c, j in self.chain] + list(self.mark[1:])
        proj = self.h.project(*[mk(self.bins[j]) for j in used])
        profile = self.opts.get("profile")
        table = proj.table(*([mk(profile)] if profile else []), count=not profile, error=self.error, normalized=bool(self.opts.get("normalized")), recarray=False)
        inorder = sorted(self.bins, key=lambda s: self.axes.index(mk(s)))
        order = [s for s in inorder if isgroup(s) and self.bins.index(s) in used] + [s for s in inorder if isfixed(s) and self.bins.index(s) in used]
        out = []
        domains = dict((self.bins.index(s), []) for s in order)

        def go(n, content, key):
            if n == len(order):
                out.append((key, [float(v) for v in content]))
                return
            s = order[n]
            j = self.bins.index(s)
            if isgroup(s):
                ax = mk(s)
                items = [(obskey(k), x) for k, x in ax.items(content)]
                items = [((k[0], k[1] if s[0] == "groupby" else float(k[1])) + k[2:] if k[0] in "igb" else k, x) for k, x in items]
                if len(items) != len(content):
                    raise core.Violation("items of %r" % (s,))
            else:
                keys = displaykeys(s)
                content = content.tolist() if hasattr(content, "tolist") else content
                if len(keys) != len(content):
                    raise core.Violation("%r has %d bins in the table" % (s, len(content)))
                items = list(zip(keys, content))
            for k, x in items:
                domains[j].append(k)
                go(n + 1, x, dict(key, **{str(j): k}))

        go(0, table, {})
        self.domains = {}
        for j, keys in domains.items():
            s = self.bins[j]
            if isfixed(s):
                self.domains[j] = [label(k) for k in displaykeys(s)] if keys else []
            else:
                u = list(dict.fromkeys(keys))
                u.sort(key=lambda k: (k[0] == "NaN", k[1:2] if k[0] != "NaN" else ()))
                self.domains[j] = [label(k) for k in u]
        return out

    @property
    def error(self):
        return self.mark[0] != "heatmap" and bool(self.opts.get("error", self.mark[0] == "marker"))

    @property
    def log(self):
        y = self.opts.get("yscale")
        return self.mark[0] != "heatmap" and (y == "log" or isinstance(y, dict) and y.get("type") == "log")

    def position(self, j, key, where):
        """Where a bin of a terminal axis is shown, or None if it is not."""
        s = self.bins[j]
        if s[0] in NUMERIC and where != "label":
            if key[0] != "I" or math.isinf(key[1]) or math.isinf(key[2]):
                return None
            return key[1] if where == "low" else 0.5 * (key[1] + key[2])
        return label(key)

    def units(self):
        """Expected unit layers: (mark, {channel: (type, title)}, rows of {channel: value}, extra)."""
        cells = self.cells()
        facets = {"overlay": "color", "stack": "color", "beside": "column", "below": "row"}
        if self.mark[0] == "heatmap":
            out = []
            for key, vals in cells:
                row = {"color": vals[0]}
                ok = True
                for ch, j in (("x", self.mark[1]), ("y", self.mark[2])):
                    k = key[str(j)]
                    if self.bins[j][0] == "groupbin":
                        p = None if k[0] == "NaN" else 0.5 * (k[1] + k[2])
                    else:
                        p = self.position(j, k, "centre")
                    if p is None:
                        ok = False
                    row[ch] = p
                for c, j in self.chain:
                    row[facets[c]] = label(key[str(j)])
                if ok:
                    out.append(row)
            types = dict((ch, "quantitative" if self.bins[j][0] in NUMERIC else "nominal") for ch, j in (("x", self.mark[1]), ("y", self.mark[2])))
            types["color"] = "quantitative"
            titles = {"x": self.bins[self.mark[1]][1], "y": self.bins[self.mark[2]][1], "color": self.opts["profile"][1] if self.opts.get("profile") else "entries per bin"}
            for c, j in self.chain:
                types[facets[c]] = "nominal"
                titles[facets[c]] = self.bins[j][1]
            return [("rect", types, titles, out, {})]

        last = self.mark[1]
        s = self.bins[last]
        numeric = s[0] in NUMERIC
        step = numeric and self.mark[0] in ("step", "area")
        where = "label" if self.mark[0] == "bar" or not numeric else "low" if step else "centre"
        xtype = "nominal" if not numeric else "ordinal" if self.mark[0] == "bar" else "quantitative"
        mark = {"bar": "bar", "step": "line", "area": "area", "line": "line", "marker": "point"}[self.mark[0]]
        if not numeric and self.mark[0] in ("step", "area"):
            mark = "bar"
        main, rule, outers = [], [], []
        for key, vals in cells:
            p = self.position(last, key[str(last)], where)
            if p is None:
                continue
            outer = dict((facets[c], label(key[str(j)])) for c, j in self.chain)
            if step and outer not in outers:
                outers.append(outer)
            if self.log and not vals[0] > 0:
                continue
            main.append(dict(outer, x=p, y=vals[0]))
            if self.error:
                rule.append({"x": self.position(last, key[str(last)], "centre" if where == "low" else where), "y": vals[0] - vals[1], "y2": vals[0] + vals[1]})
        if step and not self.log:
            # the outline comes down to zero at both ends
            finite = [k for k in displaykeys(s) if self.position(last, k, "low") is not None]
            for outer in outers:
                for x in finite[0][1], finite[-1][2]:
                    main.append(dict(outer, x=x, y=0.0))
                    if self.error:
                        rule.append({"x": x, "y": 0.0, "y2": 0.0})
        types = {"x": xtype, "y": "quantitative"}
        titles = {"x": s[1], "y": self.opts["profile"][1] if self.opts.get("profile") else "probability per bin" if self.opts.get("normalized") else "entries per bin"}
        extra = {"step": step}
        for c, j in self.chain:
            types[facets[c]] = "nominal"
            titles[facets[c]] = self.bins[j][1]
            if c == "overlay":
                extra["domain"] = self.domains[j]
            if c == "stack":
                stackorder = self.domains[j] if self.order is None else list(self.order)
                extra["domain"] = stackorder[::-1]
                extra["stack"] = stackorder
        out = [(mark, types, titles, main, extra)]
        if self.error:
            out.append(("rule", {"x": xtype, "y": "quantitative", "y2": "quantitative"}, {}, rule, {}))
        return out

    def tree(self, inlayer=False):
        us = [["unit", u, self] for u in self.units()]
        return us[0] if len(us) == 1 else ["layer", us, None]


class Combo(object):
    def __init__(self, kind, members, numcol=None, config=None):
        self.kind, self.members, self.numcol, self.config = kind, members, numcol, config
        f = {"overlay": overlay, "beside": beside, "below": below}.get(kind)
        o = {} if config is None else {"config": config}
        self.plot = f(*[m.plot for m in members], **o) if f else grid(numcol, *[m.plot for m in members], **o)

    def describe(self):
        return "%s(%s)" % (self.kind, ", ".join(m.describe() for m in self.members))

    def tree(self):
        kids = [m.tree() for m in self.members]
        if self.kind == "overlay":
            flat = []
            for k in kids:
                flat.extend(k[1] if k[0] == "layer" else [k])
            return ["layer", flat, None]
        if self.kind == "grid":
            return ["vconcat", [["hconcat", kids[i:i + self.numcol], None] for i in range(0, len(kids), self.numcol)], None]
        return ["hconcat" if self.kind == "beside" else "vconcat", kids, None]


def title(enc):
    for k in "axis", "legend", "header":
        if k in enc and "title" in enc[k]:
            return enc[k]["title"]
    return enc.get("title")


def rowkey(row, names):
    return tuple(("%.6g" % row[n] if isinstance(row[n], float) and n == "x" else str(row[n]) if not isinstance(row[n], float) else "") for n in names)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, 1e-8)
    return type(a) is type(b) and a == b


def multiset(rows, names):
    def key(r):
        return [(0, "") if r[n] != r[n] else (1, "%.6e" % (r[n] + 0.0)) if isinstance(r[n], float) else (2, r[n]) for n in names]
    return sorted(rows, key=key)


def checkunit(got, exp, bad):
    spec, data = got[1], got[2]
    mark, types, titles, want, extra = exp[1]
    plot = exp[2]
    m = spec["mark"]
    mtype = m["type"] if isinstance(m, dict) else m
    if mtype != mark:
        return bad("mark %r, expected %r" % (m, mark))
    enc = spec["encoding"]
    missing = set(types) ^ (set(enc) - set(["order"]))
    if missing:
        return bad("encoding has channels %r, expected %r" % (sorted(enc), sorted(types)))
    rows = []
    for d in data:
        row = {}
        for ch in types:
            f = enc[ch]["field"]
            if f not in d or d[f] is UNDEFINED:
                return bad("channel %r refers to the field %r, absent from the datum %r" % (ch, f, d))
            row[ch] = d[f]
            t = enc[ch].get("type")
            if t != types[ch]:
                return bad("channel %r has type %r, expected %r" % (ch, t, types[ch]))
            if t == "quantitative" and not isinstance(d[f], float):
                return bad("quantitative channel %r has the value %r" % (ch, d[f]))
        rows.append(row)
    names = sorted(types)
    a, b = multiset(rows, names), multiset(want, names)
    if len(a) != len(b):
        return bad("%d data, expected %d:\n%r\nexpected\n%r" % (len(a), len(b), a[:12], b[:12]))
    for r, w in zip(a, b):
        if not all(same(r[n], w[n]) for n in names):
            # neighbours may have sorted differently through rounding: search
            b2 = list(b)
            for r in a:
                for i, w in enumerate(b2):
                    if all(same(r[n], w[n]) for n in names):
                        del b2[i]
                        break
                else:
                    return bad("shows %r, which the histogram does not have; still expected %r" % (r, b2[:6]))
            break
    for ch, t in titles.items():
        if title(enc[ch]) != t:
            return bad("channel %r is titled %r, expected %r" % (ch, title(enc[ch]), t))
    if extra.get("step"):
        # Vega-Lite draws lines from right to left: "step-before" keeps the value at a point up to the next point on its right
        if not isinstance(m, dict) or m.get("interpolate") != "step-before":
            return bad("mark %r does not draw a step from each low edge" % (m,))
    for ch, opt in (("x", "xscale"), ("y", "yscale"), ("color", "colorscale")):
        v = plot.opts.get(opt)
        if v is not None and ch in enc and mark != "rule":
            if enc[ch].get("scale") != (v if isinstance(v, dict) else {"type": v}):
                return bad("%s=%r gives %r" % (opt, v, enc[ch].get("scale")))
    if "domain" in extra and plot.opts.get("colorscale") is None:
        if enc["color"].get("scale", {}).get("domain") != extra["domain"]:
            return bad("colours are for %r, expected %r" % (enc["color"].get("scale"), extra["domain"]))
    if "stack" in extra:
        if enc["y"].get("aggregate") != "sum":
            return bad("not stacked: %r" % (enc["y"],))
        f = enc["order"]["field"]
        ranks = {}
        for d in data:
            if f not in d:
                return bad("order refers to the absent field %r" % f)
            r = ranks.setdefault(d[enc["color"]["field"]], d[f])
            if r != d[f]:
                return bad("two ranks for one bin")
        seq = [ranks[x] for x in extra["stack"] if x in ranks]
        rest = [r for x, r in ranks.items() if x not in extra["stack"]]
        if any(x >= y for x, y in zip(seq, seq[1:])) or any(x >= y for x in seq for y in rest):
            return bad("stacking order %r has ranks %r" % (extra["stack"], ranks))
    elif "aggregate" in enc.get("y", {}):
        return bad("aggregated without being stacked")
    if mark == "rect":
        for ch, j in (("x", plot.mark[1]), ("y", plot.mark[2])):
            s = plot.bins[j]
            if s[0] in ("bin", "intbin"):
                e = [s[3], s[4]] if s[0] == "bin" else [s[2] - 0.5, s[3] + 0.5]
                n = s[2] if s[0] == "bin" else s[3] - s[2] + 1
                b = enc[ch]["bin"]
                if not (close(b["extent"][0], e[0]) and close(b["extent"][1], e[1]) and close(b["minstep"], (e[1] - e[0]) / float(n)) and b["maxbins"] >= n):
                    return bad("channel %r is binned as %r, the axis is %r" % (ch, b, s))
            elif enc[ch].get("bin"):
                return bad("channel %r of a categorical axis is binned" % ch)
    return None


def checktree(got, exp, bad, path="spec"):
    if got[0] != exp[0]:
        return bad("%s is a %s, expected a %s" % (path, got[0], exp[0]))
    if got[0] == "unit":
        return checkunit(got, exp, lambda m: bad("%s: %s" % (path, m)))
    if len(got[1]) != len(exp[1]):
        return bad("%s has %d members, expected %d" % (path, len(got[1]), len(exp[1])))
    for i, (g, e) in enumerate(zip(got[1], exp[1])):
        checktree(g, e, bad, "%s.%s[%d]" % (path, got[0], i))


def plain(x):
    """Only what JSON can say."""
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return x is None or isinstance(x, (str, bool, int, float))


def check(p, cx, key):
    def bad(msg):
        raise core.Violation("%s\n%s" % (p.describe(), msg))
    cx.step()
    cx.trace()
    try:
        spec = p.plot.vegalite()
    except core.Violation:
        raise
    except Exception as err:
        raise core.Violation("%s\nraises %s: %s\n%s" % (p.describe(), type(err).__name__, err, core.brief()))
    if not plain(spec):
        bad("not JSON: %r" % (spec,))
    cx.state(key)
    t = tree(spec)
    checktree(t, p.tree(), bad)
    cx.outcome(repr(t)[:2000])
    # options
    for o in "width", "height", "title", "config":
        if o in spec and spec[o] is None:
            bad("%s is null" % o)

    def nested(v, top):
        if isinstance(v, list):
            for z in v:
                nested(z, False)
        elif isinstance(v, dict):
            if not top and "config" in v:
                bad("a configuration inside of the plot, where Vega-Lite does not allow it")
            for k in ("layer", "hconcat", "vconcat", "spec"):
                if k in v:
                    nested(v[k], False)
    nested(spec, True)
    if isinstance(p, Plot):
        # the representation of a chain makes the same plot (of the histogram in place of its empty representation)
        env = dict(vars(histbook.axis), Hist=lambda *args, **opts: p.h)
        for text in (repr(p.plot), str(p.plot)):
            try:
                again = eval(text, env).vegalite()
            except Exception as err:
                bad("the representation %s raises %s: %s" % (text, type(err).__name__, err))
            if again != spec and repr(again) != repr(spec):
                bad("the representation %s makes a different plot" % text)
        # axes need not be named where there is only one choice
        o = dict(p.opts)
        if o.get("profile"):
            o["profile"] = mk(o["profile"])
        if not p.chain and p.mark[0] == "heatmap":
            auto = lambda: p.h.heatmap(**o)
            usable = len(p.bins) == 2
            same = [p.axes.index(mk(p.bins[j])) for j in p.mark[1:]] == [0, 1]
        else:
            last = p.h
            for c, j in p.chain:
                last = last.stack(mk(p.bins[j]), order=list(p.order)) if c == "stack" and p.order is not None else getattr(last, c)(mk(p.bins[j]))
            auto = (lambda: last.heatmap(**o)) if p.mark[0] == "heatmap" else (lambda: getattr(last, p.mark[0])(**o))
            usable = same = len(p.bins) == 1
            if p.mark[0] == "heatmap":
                usable, same = len(p.bins) == 2, False
        try:
            again = auto().vegalite()
        except TypeError:
            if usable:
                bad("the axis has to be named although there is only one choice")
        else:
            if not usable:
                bad("the axis need not be named although there are several choices")
            if same and again != spec and repr(again) != repr(spec):
                bad("leaving out the axis makes a different plot")
        for o in "width", "height", "title", "config":
            if spec.get(o) != p.opts.get(o):
                bad("%s=%r shown as %r" % (o, p.opts.get(o), spec.get(o)))
    else:
        want = {}

        def gather(c):
            if isinstance(c, Combo):
                for m in c.members:
                    gather(m)
            elif c.opts.get("config"):
                want.update(c.opts["config"])
        gather(p)
        if p.config:
            want.update(p.config)
        if (spec.get("config") or {}) != want:
            bad("config %r, expected %r" % (spec.get("config"), want))
        units = []

        def leaves(g, e):
            if g[0] == "unit":
                units.append((g[1], e[2]))
            else:
                for a, b in zip(g[1], e[1]):
                    leaves(a, b)
        leaves(t, p.tree())
        for u, plot in units:
            for o in "width", "height", "title":
                if u.get(o) != plot.opts.get(o):
                    bad("%s=%r of a member shown as %r" % (o, plot.opts.get(o), u.get(o)))
    return spec


def specs_of(kinds):
    return [KINDS[k](f) for k, f in zip(kinds, FIELDS)]


OPTS1 = [{}, {"error": True}, {"profile": ["profile", "y"]}, {"profile": ["profile", "y"], "error": True}, {"yscale": "log"}, {"yscale": {"type": "log", "base": 2}, "error": True},
         {"normalized": True, "error": False}, {"width": 100, "height": 50, "title": "T", "config": {"view": 1}, "xscale": "log", "colorscale": {"range": ["red"]}, "error": False},
         {"yscale": "linear", "profile": ["profile", "y"]}, {"yscale": {"zero": True}, "error": True}]
OPTS2 = [{}, {"profile": ["profile", "y"]}, {"width": 10, "height": 5, "title": "T", "config": {"view": 1}, "xscale": "log", "yscale": {"zero": True}, "colorscale": "log"}]
ORDERS = [None, ["cc", "it's", "z\\"]]


def chains(n):
    """Every assignment of distinct channels to the first n axes after the terminal ones (one colour channel at most)."""
    for c in itertools.permutations(CHANNELS, n):
        if not ("overlay" in c and "stack" in c):
            yield c


class Check(object):
    id = "C17"
    case_timeout = 600
    assumptions = ["bin labels are those of str(interval) (six significant digits); integer bins are shown as unit intervals around the integer",
                   "a chain has at most one colour channel (overlay or stack)", "step and area marks: Vega-Lite draws lines from right to left, so step-before holds a point's value up to its right neighbour (as rendered in binder/tutorial.ipynb)",
                   "groupbin bins have a numeric position in heatmaps and a label elsewhere; the NaN bin of a groupbin is not shown in heatmaps", "two equal axes in one histogram are not considered"]

    def bounds(self, tier):
        return {"axis kinds": sorted(KINDS), "marks": MARKS, "channels": CHANNELS, "options": [repr(o) for o in OPTS1], "fills": "none, empty, 1 row, 16 rows; with and without weights",
                "chains": "every terminal kind x every ordered choice of up to 2 channels x every kind on them", "combinations": "overlay, beside, below, grid of every pair and triple from a pool, nested twice"}

    def cases(self, tier):
        ks = sorted(KINDS)
        out = [["1d", [k]] for k in ks]
        out += [["1d", [a, b]] for a in ks for b in ks]
        out += [["1d", [a, b, c]] for a in ks for b in ks for c in ks]
        out += [["2d", [a, b, c]] for a in ks for b in ks for c in ks]
        out += [["combo", i] for i in range(NPOOL)]
        out.append(["refused"])
        return out

    def run(self, case, cx):
        if case[0] == "combo":
            return self.combos(case[1], cx)
        if case[0] == "refused":
            return self.refused(cx)
        kinds = case[1]
        two = case[0] == "2d"
        n = len(kinds)
        terminal = 2 if two else 1
        specs = specs_of(kinds)
        salt = core.h64(case)
        # an extra axis that is never plotted
        extra = [["cut", "v > 0"], ["groupby", "gv"], ["bin", "v", 2, 0, 2, "UO_L"], ["bin", "v", 2, 0, 2, "____"]][salt % 4]
        allspecs = specs + [extra]
        if salt % 3 == 1:
            allspecs = allspecs[::-1]
        profs = [["profile", "y"], ["profile", "y + 1"]]
        small = n == 3 and cx.tier == "quick"
        fills = [16] if small else [None, 0, 1, 16]
        n0 = 0
        for fill in fills:
            for weighted in ((salt // 5 % 2,) if small else (0, 1)):
                ref = Ref(allspecs + profs, weight="w" if weighted else None)
                h = ref.hist()
                if fill is not None:
                    rs = rows(fill, kinds)
                    h.fill(columns(rs, h.fields))
                before = snap(h)
                bins = specs + [extra]
                if n > terminal:
                    chs = list(chains(n - terminal))
                else:
                    chs = [()]
                for ci, cs in enumerate(chs):
                    chain = [(c, terminal + i) for i, c in enumerate(cs)]
                    if two:
                        if "overlay" in cs or "stack" in cs:
                            continue
                        marks = [("heatmap", 0, 1), ("heatmap", 1, 0)]
                        optsl = OPTS2
                    else:
                        marks = [(m, 0) for m in MARKS]
                        optsl = OPTS1
                    for mi, mark in enumerate(marks):
                        for oi, opts in enumerate(optsl):
                            if small and n - terminal == 2 and (mi + oi + ci + salt) % 9:
                                continue
                            if cx.tier == "quick" and n == 2 and not two and fill != 16 and (mi + oi + ci) % 3:
                                continue
                            for order in (ORDERS if "stack" in cs else [None]):
                                n0 += 1
                                error = opts.get("error", mark[0] == "marker")
                                refused = not two and ("stack" in cs and mark[0] not in ("bar", "area") or error and ("beside" in cs or "below" in cs))
                                try:
                                    p = Plot(h, bins + profs, chain, mark, opts, order, mentions=n0)
                                except (TypeError, NotImplementedError):
                                    if refused:
                                        cx.count("refused")
                                        continue
                                    raise
                                if two and any(bins[j][0] == "split" for j in mark[1:]):
                                    try:
                                        p.plot.vegalite()
                                    except NotImplementedError:
                                        cx.count("refused")
                                        continue
                                if fill in (None, 0) and opts.get("normalized"):
                                    continue
                                check(p, cx, (case, fill, weighted, cs, mark, oi, order))
                if snap(h) != before:
                    raise core.Violation("%r: plotting changed the histogram" % (allspecs,))
        cx.sample({"axes": allspecs, "plots": n0})

    def refused(self, cx):
        """What cannot be drawn is refused instead of being drawn as something else."""
        h = Ref([["bin", "x", 2, 0, 2, "UONL"], ["groupby", "g"], ["groupby", "k"], ["cut", "z > 0"], ["split", "u", [0, 1, 3], "____"], ["profile", "y"]]).hist()
        h.fill(x=numpy.array([0.5, 1.5]), g=numpy.array(["a", "b"]), k=numpy.array(["c", "d"]), z=numpy.array([0.0, 1.0]), u=numpy.array([0.5, 2.0]), y=numpy.array([1.0, 2.0]))
        before = snap(h)

        def refuse(what, f, errors=(TypeError, NotImplementedError)):
            cx.step()
            cx.state(what)
            try:
                p = f()
            except errors:
                return
            raise core.Violation("%s is accepted and draws %r" % (what, p.vegalite() if hasattr(p, "vegalite") else p))

        def then(p, chain):
            for c, a in chain:
                p = getattr(p, c)(a)
            return p

        for n in (1, 2, 3):
            for cs in itertools.product(CHANNELS, repeat=n):
                chain = list(zip(cs, ("g", "k", "z > 0")))
                if len(set(cs)) < n:
                    refuse("chain %r" % (chain,), lambda: then(h, chain))
                    continue
                for m in MARKS:
                    if "beside" in cs or "below" in cs:
                        for o in ({"error": True}, {"error": True, "profile": "y"}) + (({},) if m == "marker" else ()):
                            refuse("%r .%s(%r) with error bars" % (chain, m, o), lambda: getattr(then(h, chain), m)("x", **o).vegalite())
                    if "stack" in cs and m not in ("bar", "area"):
                        refuse("%r .%s stacked" % (chain, m), lambda: getattr(then(h, chain), m)("x", error=False).vegalite())
                    refuse("%r .%s() of no axis" % (chain, m), lambda: getattr(then(h, chain), m)(error=False))
                    refuse("%r .%s('q') of an unknown axis" % (chain, m), lambda: getattr(then(h, chain), m)("q", error=False), (TypeError, IndexError))
                if "overlay" in cs or "stack" in cs:
                    refuse("%r .heatmap" % (chain,), lambda: then(h, chain).heatmap("x", "z > 0"))
        for a, b in (("x", "u"), ("u", "x")):
            refuse("heatmap of a split axis", lambda: h.heatmap(a, b).vegalite())
        for a, b in (("x", None), (None, "x"), (None, None)):
            refuse("heatmap(%r, %r)" % (a, b), lambda: h.heatmap(a, b))
        for c in CHANNELS:
            refuse("%s of an unknown axis" % c, lambda: getattr(h, c)("q"), IndexError)

        one = h.step("x")
        two = h.heatmap("x", "z > 0")
        for f in (overlay, beside, below, grid):
            for arg in (1, None, "ab", h.overlay("g"), [one, h]):
                refuse("%s of %r" % (f.__name__, arg), lambda: f(*(((2,) if f is grid else ()) + (arg, one))))
                refuse("%s of %r" % (f.__name__, arg), lambda: f(*(((2,) if f is grid else ()) + (one, arg))))
            refuse("an unknown option of %s" % f.__name__, lambda: f(*(((2,) if f is grid else ()) + (one, one)), **{"configuration": {}}))
        for c, args in ((overlay, [one, two]), (overlay, [two, one]), (overlay, [one, overlay(one, one)]), (overlay, [beside(one, one), one]), (overlay, [below(one, one), one]), (overlay, [grid(1, one, one), one]),
                        (beside, [one, beside(one, one)]), (beside, [grid(1, one), one]), (below, [one, below(one, one)]), (below, [grid(1, one), one]),
                        (lambda *a: grid(2, *a), [one, grid(1, one)]), (lambda *a: grid(2, *a), [beside(one, one), one]), (lambda *a: grid(2, *a), [one, below(one, one)])):
            refuse("%s of %r" % (getattr(c, "__name__", "grid"), args), lambda: c(*args).vegalite())
        cx.trace()
        if snap(h) != before:
            raise core.Violation("refused plots changed the histogram %r" % (h,))

    def frontends(self, c, cx):
        """Every way of handing a plot to a drawing library passes on the same specification (the libraries are replaced by recorders)."""
        want = c.plot.vegalite()
        saved = dict((n, sys.modules.get(n)) for n in ("vega", "vegascope", "altair"))
        vega, scope, alt = [types.ModuleType(n) for n in ("vega", "vegascope", "altair")]
        vega.VegaLite = lambda spec: ("vega", spec)
        scope.LocalCanvas = lambda: (lambda spec: ("local", spec))
        alt.Chart = types.SimpleNamespace(from_dict=lambda spec, validate=True: ("altair", validate, spec))
        sys.modules.update(vega=vega, vegascope=scope, altair=alt)
        try:
            got = [("to", c.plot.to(lambda spec: ("to", spec)), ("to", want)), ("ipyvega", c.plot.ipyvega(), ("vega", want)), ("vegascope", c.plot.vegascope(), ("local", want)),
                   ("vegascope with a canvas", c.plot.vegascope(lambda spec: ("given", spec)), ("given", want)), ("vegascope, after another canvas", c.plot.vegascope(), ("local", want)),
                   ("altair", c.plot.altair(), ("altair", True, want)), ("altair without validation", c.plot.altair(validate=False), ("altair", False, want)),
                   ("the notebook", c.plot._repr_mimebundle_(), {"application/vnd.vegalite.v2+json": want}), ("vegalite again", c.plot.vegalite(), want)]
        finally:
            for n, m in saved.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        for what, g, w in got:
            cx.step()
            if g != w:
                raise core.Violation("%s: %s gets %s\nexpected %s" % (c.describe(), what, str(g)[:300], str(w)[:300]))

    def combos(self, first, cx):
        ps = pool()
        ones = [p for p in ps if p.mark[0] != "heatmap"]
        a = ps[first]
        before = [snap(p.h) for p in ps]
        todo = [Combo(k, [a], numcol=2) for k in ("overlay", "beside", "below", "grid") if k != "overlay" or a in ones]
        for b in ps:
            for k in "overlay", "beside", "below", "grid":
                if k == "overlay" and not (a in ones and b in ones):
                    continue
                todo.append(Combo(k, [a, b], numcol=1, config={"view": 7} if b is ps[1] else None))
            for c in (ps if cx.tier == "thorough" else ps[first % 2::2]):
                if c.mark[0] != "heatmap" and b.mark[0] != "heatmap":
                    o = Combo("overlay", [b, c])
                    todo.append(Combo("beside", [a, o]))
                    todo.append(Combo("beside", [o, a]))
                    todo.append(Combo("below", [o, a] if (b, c) != (a, a) else [a, o, a]))
                    todo.append(Combo("beside", [Combo("below", [o, a]), b, o, a]))
                    todo.append(Combo("below", [Combo("beside", [b, o]), a, o, b]))
                    todo.append(Combo("grid", [o, a, b], numcol=2))
                    todo.append(Combo("grid", [o, a, o], numcol=2))
                    todo.append(Combo("below", [o, Combo("beside", [a, b])]))
                    if a in ones:
                        todo.append(Combo("overlay", [a, b, c]))
                        todo.append(Combo("beside", [Combo("below", [Combo("overlay", [a, b]), c]), a]))
                todo.append(Combo("grid", [a, b, c], numcol=2))
                todo.append(Combo("below", [Combo("beside", [a, b]), c]))
                todo.append(Combo("beside", [a, Combo("below", [b, c])]))
        if first == 0:
            many = ones * 5
            todo.append(Combo("overlay", many[:60]))
            todo.append(Combo("grid", many[:30], numcol=4))
        for i, c in enumerate(todo):
            check(c, cx, ("combo", first, i))
            if i % 7 == 0:
                self.frontends(c, cx)
        self.frontends(a, cx)
        for p, b in zip(ps, before):
            if snap(p.h) != b:
                raise core.Violation("%s: plotting changed the histogram" % p.describe())
        # filled further after it was drawn: the same plot object hands every library the same specification, and draws what a new plot would
        for p in ps:
            p.h.fill(columns(rows(5, p.kinds), p.h.fields))
        for c in [a] + todo[:3] + todo[-2:]:
            self.frontends(c, cx)
        cx.sample({"combination": todo[-1].describe()})


def pool():
    out = []

    def add(kinds, chain, mark, opts, weight=None, n=12):
        ref = Ref(specs_of(kinds) + [["profile", "y"]], weight=weight)
        h = ref.hist()
        h.fill(columns(rows(n, kinds), h.fields))
        out.append(Plot(h, ref.specs if False else specs_of(kinds) + [["profile", "y"]], chain, mark, opts, mentions=len(out)))
        out[-1].kinds = kinds

    add(["bin"], [], ("step", 0), {})
    add(["bin"], [], ("marker", 0), {"width": 30, "config": {"a": 1}})
    add(["groupby", "bin"], [("overlay", 0)], ("line", 1), {"title": "t"}, weight="w")
    add(["split", "cut"], [("stack", 1)], ("area", 0), {"height": 8, "config": {"a": 2, "b": 3}})
    add(["intbin"], [], ("bar", 0), {"error": True}, n=1)
    add(["groupbin", "bare"], [("overlay", 1)], ("bar", 0), {"profile": ["profile", "y"]})
    add(["bin", "intbin"], [], ("heatmap", 0, 1), {"width": 3})
    add(["binh", "groupby"], [("overlay", 1)], ("area", 0), {"error": True, "yscale": "log"})
    return out


NPOOL = 8
CHECK = Check()
