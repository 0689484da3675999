"""C06: filling a book equals filling each of its histograms separately.

share   every ordered pair and every (thorough: ordered) triple of a pool of histograms whose expressions share fields, subexpressions,
        definitions, weights and axis types, put in one book and filled twice
seq     every sequence, up to the depth, of insertions, replacements, removals (at every level of nesting, through the outer path or through
        the inner book object), fills of the outer book, of an inner book and of single histograms, from several initial trees; a final fill
        of the outer book; every histogram of the pool is compared with its model, also those that were removed"""
import itertools

from mc.ref import *

POOL = [
    ([["bin", "x", 2, 0, 2, "UONL"]], {}),
    ([["bin", "x + y", 3, 0, 3, "UONL"], ["profile", "y"]], {"weight": "w"}),
    ([["groupby", "g"], ["cut", "x > 1"]], {}),
    ([["bin", "x", 2, 0, 2, "UONL"]], {"filter": "x > 1"}),
    ([["split", "x", [0, 1, 2], "UONH"], ["profile", "x + y"]], {}),
    ([["bin", "y + x", 3, 0, 3, "UONL"]], {"weight": 2.5}),
    ([["bin", "sqrt(x*x + y*y)", 4, 0, 4, "UONL"]], {}),
    ([["profile", "sqrt(x*x + y*y)"]], {"weight": "sqrt(x*x + y*y)"}),
    ([["groupbin", "x + y", 1, 0, "NL"]], {"filter": "x + y > 1", "weight": "w"}),
    ([["intbin", "i", 0, 1, "UO"], ["bin", "x*2", 2, 0, 4, "UONL"]], {}),
    ([["bin", "k", 2, 0, 2, "UONL"]], {"defs": {"k": "x"}}),
    ([["bin", "k", 2, 0, 2, "UONL"], ["profile", "k"]], {"defs": {"k": "y"}}),
    ([["profile", "y"], ["profile", "x"]], {"weight": "x + y"}),
    ([["groupby", "g"], ["groupbin", "y", 1, 0, "_L"], ["profile", "x"]], {"weight": "w*k", "defs": {"k": "x + y"}}),
    ([["cut", "x > 1"]], {"filter": "x > 1"}),
    ([["cut", "x > 1 and y > 1"], ["cut", "x > 1"]], {}),
    ([["bin", "where(x > 1, x, y)", 2, 0, 2, "UONL"]], {"filter": "not x > 1"}),
    ([["groupby", "i"], ["intbin", "i", 0, 1, "__"]], {}),
    ([["bin", "x", 2, 0, 2, "___L"], ["bin", "y", 2, 0, 2, "___L"]], {"weight": "w"}),
    ([["bin", "x - x + y", 2, 0, 2, "UONL"], ["profile", "2*(x + y)"]], {}),
    ([["bin", "x", 2, 0, 2, "UONH"]], {"weight": "w**2"}),
    ([["groupby", "g"]], {"weight": "where(x > 1, w, 0)"}),
    ([["split", "y", [0, 2], "____"[:3] + "L"]], {"weight": "y"}),
    ([["bin", "x/y", 2, 0, 2, "UONL"], ["profile", "y/x"]], {"filter": "g in {'a', 'b'}"}),
    # several fixed axes, each of which some other histogram has as its first, second or only one
    ([["bin", "x", 2, 0, 2, "UONL"], ["cut", "x > 1"]], {}),
    ([["cut", "x > 1"], ["bin", "x", 2, 0, 2, "UONL"], ["intbin", "i", 0, 1, "UO"]], {"weight": "w"}),
    ([["groupby", "g"], ["bin", "x", 2, 0, 2, "UONL"], ["split", "x", [0, 1, 2], "UONH"], ["profile", "y"]], {}),
    ([["intbin", "i", 0, 1, "UO"], ["cut", "x > 1"], ["profile", "x + y"]], {"filter": "x + y > 1"}),
    ([["bin", "x", 2, 0, 2, "___L"]], {}),
    ([["groupby", "g"], ["groupby", "i"], ["bin", "x", 2, 0, 2, "UONL"]], {"weight": "w"}),
    # what other histograms have as a weight
    ([["intbin", "i", 0, 1, "UO"], ["profile", "w"]], {}),
    ([["bin", "w", 2, 0, 2, "UONL"], ["profile", "w*w"]], {"filter": "w > 1"}),
]
FIELDS = ["x", "y", "i", "g", "w"]
ROWS = [
    {"x": 0.5, "y": 1.5, "i": 0.0, "g": "a", "w": 2.0},
    {"x": 1.5, "y": 0.25, "i": 1.0, "g": "b", "w": 0.5},
    {"x": 1.25, "y": 3.0, "i": 5.0, "g": "a", "w": 1.5},
    {"x": 7.0, "y": 1.75, "i": 0.0, "g": "cc", "w": 3.0},
    {"x": 0.75, "y": 1.0, "i": 1.0, "g": "b", "w": NAN},
]

SEQPOOL = [0, 1, 2, 3, 13]         # H0..H4
# (target, name, what): target is B (outer), N or M (inner books); what is H0.., N or M, or None to delete
OPS = [
    ("B", "a", "H0"), ("B", "a", "H1"), ("B", "b", "H2"), ("B", "in", "N"), ("B", "in/c", "H3"), ("N", "c", "H1"), ("N", "d", "H4"), ("N", "deep", "M"),
    ("M", "e", "H0"), ("B", "in/deep/e", "H4"), ("B", "a", None), ("B", "in", None), ("N", "c", None), ("B", "in/d", None), ("B", "in/deep", None), ("M", "e", None),
    ("fill", "B", 0), ("fill", "N", 1), ("fill", "H1", 2), ("fill", "H0", 1), ("B", "b", "H1"),
]
INIT = [
    [],
    [("B", "a", "H0"), ("B", "b", "H2")],
    [("N", "c", "H1"), ("N", "d", "H4"), ("B", "in", "N"), ("fill", "B", 0)],
    [("M", "e", "H3"), ("N", "deep", "M"), ("B", "in", "N"), ("B", "a", "H0"), ("fill", "B", 0)],
    [("B", "a", "H0"), ("B", "b", "H0"), ("fill", "B", 0)],
]


class Tree(object):
    def __init__(self):
        self.content = {}

    def set(self, name, value):
        head, _, rest = name.partition("/")
        if not rest:
            self.content[head] = value
        else:
            if head not in self.content:
                self.content[head] = Tree()
            if not isinstance(self.content[head], Tree):
                raise KeyError(name)
            self.content[head].set(rest, value)

    def delete(self, name):
        head, _, rest = name.partition("/")
        if head not in self.content or (rest and not isinstance(self.content[head], Tree)):
            raise KeyError(name)
        if rest:
            self.content[head].delete(rest)
        else:
            del self.content[head]

    def paths(self):
        out = []
        for n, x in self.content.items():
            if isinstance(x, Tree):
                out += [(n + "/" + p, y) for p, y in x.paths()]
            else:
                out.append((n, x))
        return out


class Check(object):
    id = "C06"
    case_timeout = 600
    assumptions = ["a histogram that is in the book under several names counts each row once, as if it alone had been filled"]

    def bounds(self, tier):
        return {"pool": len(POOL), "share": "ordered pairs, " + ("ordered" if tier == "thorough" else "unordered") + " triples, fills of 5 rows in two calls (one of them with a scalar)",
                "operations": len(OPS), "initial_trees": len(INIT), "depth": 4 if tier == "thorough" else 3}

    def cases(self, tier):
        out = [["share", i, j] for i in range(len(POOL)) for j in range(len(POOL)) if i != j]
        out += [["seq", k, a, b] for k in range(len(INIT)) for a in range(len(OPS)) for b in range(len(OPS))]
        out += [["many", n, start, layout] for n in (5, 8, 17, len(POOL), 2 * len(POOL) + 1) for start in range(0, len(POOL), 5) for layout in ("flat", "chain", "pairs")]
        return sorted(out, key=lambda z: core.h64(z))

    def many(self, case, cx):
        """large books: many histograms of the pool (also several of the same kind), side by side, each in a book inside the previous one's, or in pairs"""
        _, n, start, layout = case
        which = [(start + 7 * k) % len(POOL) for k in range(n)]
        refs = [Ref(POOL[c][0], **POOL[c][1]) for c in which]
        hists = [r.hist() for r in refs]
        b = Book()
        for k, h in enumerate(hists):
            b["h%d" % k if layout == "flat" else "/".join(["d"] * (k % 9) + ["h%d" % k]) if layout == "chain" else "p%d/h%d" % (k // 2, k)] = h
        for part in (ROWS[:3], ROWS[3:], ROWS[1:2]):
            b.fill(columns(part, FIELDS, {"g": "U2"}))
            cx.step()
            for r in refs:
                r.fill(part)
        for k, (h, r) in enumerate(zip(hists, refs)):
            obs = observe(h)
            cx.trace()
            cx.state((case, k))
            cx.outcome(obshash(obs))
            d = diff(obs, r.expected())
            if d is not None:
                raise core.Violation("book of %d histograms (%s): number %d %r %r\n%s" % (n, layout, k, r.specs, r.opts(), d))

    def run(self, case, cx):
        getattr(self, case[0])(case, cx)

    def share(self, case, cx):
        _, i, j = case
        combos = [(i, j)]
        for k in range(len(POOL)):
            if k in (i, j):
                continue
            if cx.tier == "thorough" or (i < j < k):
                combos.append((i, j, k))
        for combo in combos:
            refs = [Ref(POOL[c][0], **POOL[c][1]) for c in combo]
            b = Book()
            hists = []
            for n, r in enumerate(refs):
                h = r.hist()
                hists.append(h)
                b["h%d" % n if n != 1 else "sub/h1"] = h
            for part in (ROWS[:3], ROWS[3:], []):
                b.fill(columns(part, FIELDS, {"g": "U2"}))
                cx.step()
                for r in refs:
                    r.fill(part)
            one = dict(ROWS[1])
            b.fill(**one)
            cx.step()
            for n, (h, r) in enumerate(zip(hists, refs)):
                r.fill([one])
                obs = observe(h)
                cx.trace()
                cx.state((combo, n))
                cx.outcome(obshash(obs))
                d = diff(obs, r.expected())
                if d is not None:
                    raise core.Violation("book of %r: histogram %d %r %r\n%s" % (combo, n, r.specs, r.opts(), d))
                if not h == alone(combo[n]):
                    raise core.Violation("book of %r: histogram %d %r %r does not equal the same histogram filled alone\n%r\n%r" % (combo, n, r.specs, r.opts(), h[()], alone(combo[n])[()]))
            want = sorted(set(f for c in combo for f in FIELDS if any(f in names for names in _names(POOL[c]))))
            if b.fields != want:
                raise core.Violation("book of %r reports fields %r, expected %r" % (combo, b.fields, want))
        cx.sample({"book": [POOL[c] for c in combos[0]]})

    def seq(self, case, cx):
        _, k, a, b = case
        depth = 4 if cx.tier == "thorough" else 3
        for tail in itertools.chain(*(itertools.product(range(len(OPS)), repeat=n) for n in range(depth - 1))):
            ops = INIT[k] + [OPS[z] for z in (a, b) + tail]
            if not any(o[0] != "fill" for o in ops):
                continue
            if self.history(case, ops, cx) is False:
                continue

    def history(self, case, ops, cx):
        refs = dict(("H%d" % n, Ref(POOL[c][0], **POOL[c][1])) for n, c in enumerate(SEQPOOL))
        hists = dict((n, r.hist()) for n, r in refs.items())
        books = {"B": Book(), "N": Book(), "M": Book()}
        trees = {"B": Tree(), "N": Tree(), "M": Tree()}
        objs = dict(hists, **books)
        models = dict([(n, n) for n in hists], **trees)

        def dofill(what, rows):
            objs[what].fill(columns(rows, FIELDS))
            if what in refs:
                refs[what].fill(rows)
            else:
                for n in set(y for p, y in trees[what].paths()):
                    refs[n].fill(rows)

        for t, name, what in ops:
            cx.step()
            if t == "fill":
                dofill(name, [ROWS[what], ROWS[what + 2]])
            else:
                try:
                    if what is None:
                        trees[t].delete(name)
                    else:
                        trees[t].set(name, models[what])
                except KeyError:
                    return False        # not possible in this history (covered by C15)
                if what is None:
                    del books[t][name]
                else:
                    books[t][name] = objs[what]
        dofill("B", ROWS[3:])
        cx.step()
        for n in sorted(refs):
            obs = observe(hists[n])
            cx.outcome(obshash(obs))
            d = diff(obs, refs[n].expected())
            if d is not None:
                raise core.Violation("after %r and a fill of B\nhistogram %s %r %r\n%s" % (ops, n, refs[n].specs, refs[n].opts(), d))
        cx.trace()
        cx.state(ops)
        cx.sample({"operations": ops})


_alone = {}


def alone(c):
    """The histogram of configuration c, filled like those of a book in "share", but alone."""
    if c not in _alone:
        h = Ref(POOL[c][0], **POOL[c][1]).hist()
        for part in (ROWS[:3], ROWS[3:], []):
            h.fill(columns(part, FIELDS, {"g": "U2"}))
        h.fill(**ROWS[1])
        _alone[c] = h
    return _alone[c]


def _names(conf):
    from mc.c02 import names
    specs, opts = conf
    defs = opts.get("defs", {})
    for e in [s[1] for s in specs] + [opts.get("weight"), opts.get("filter")]:
        if isinstance(e, str):
            if e == "x - x + y":
                e = "y"
            ns = names(e)
            for d, x in defs.items():
                if d in ns:
                    ns = (ns - {d}) | names(x)
            yield ns


CHECK = Check()
