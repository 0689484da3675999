"""C13: grouping keeps each histogram retrievable and adds nothing.

Model: a group is an ordered dict name -> multiset of (row, weight mode); every combination of names, weight
modes, fill states and argument orders is built on the real code, then every short sequence of togroup calls."""
import itertools

from mc.ref import *
from mc.c03 import ROWS, FIELDS, fill

AXES = [
    [["bin", "x", 2, 0, 2, "UONL"]],
    [["bin", "x", 2, 0, 2, "___L"], ["profile", "y"]],
    [["groupby", "g"]],
    [["groupby", "g"], ["bin", "x", 2, 0, 2, "UO_L"], ["profile", "y"]],
    [["groupbin", "x", 1, 0, "NL"], ["cut", "y > 1"]],
    [["groupby", "g"], ["groupbin", "y", 2, 0, "NL"]],
    [["split", "x", [0, 1, 3], "UO_H"], ["intbin", "i", 0, 1, "UO"], ["profile", "y"], ["profile", "x"]],
    [["profile", "y"]],
]
MODES = [{}, {"weight": "w"}, {"filter": "x > 0.6"}, {"weight": 2.5}, {"weight": "w", "filter": "y > 1"}]
FILLS = [None, [], [0, 2], [1, 3, 4]]
STEPS = [("b", 0, 2), ("b", 1, 3), ("a", 0, 3), ("c", 0, 2), ("c", 2, 1), ("a", 3, 0), ("d", 4, 2)]


class Group(object):
    def __init__(self, specs):
        self.specs, self.weighted, self.stats, self.nprof = specs, None, {}, sum(map(isprofile, specs))

    def add(self, name, ref):
        for k, v in ref.stats().items():
            k = (("g", name),) + k
            old = self.stats.get(k)
            self.stats[k] = v if old is None else [p + q for p, q in zip(old, v)]

    def copy(self):
        out = Group(self.specs)
        out.weighted, out.stats = self.weighted, dict(self.stats)
        return out

    def expected(self):
        return derive(self.stats, self.weighted, self.nprof)

    def only(self, names):
        return derive(dict((k, v) for k, v in self.stats.items() if k[0][1] in names), self.weighted, self.nprof)

    def projected(self, names=None):
        out = {}
        for k, v in self.stats.items():
            if names is None or k[0][1] in names:
                old = out.get(k[1:])
                out[k[1:]] = v if old is None else [p + q for p, q in zip(old, v)]
        out = dict((k, v) for k, v in out.items() if any(z != 0 for z in v))
        return derive(out, self.weighted, self.nprof)


class Check(object):
    id = "C13"
    case_timeout = 300
    assumptions = ["definitions (defs) of grouped histograms do not contradict each other", "what a filter of the grouped histograms means for later fills of the group is not part of the property"]

    def bounds(self, tier):
        return {"axis_arrangements": len(AXES), "weight_modes": len(MODES), "fill_states": len(FILLS), "members": "1, 2 and 3 in every order", "togroup_depth": 3 if tier == "thorough" else 2, "togroup_steps": len(STEPS)}

    def cases(self, tier):
        out = []
        for a in range(len(AXES)):
            for m, n in itertools.product(range(len(MODES)), repeat=2):
                out.append(["pairs", a, m, n])
                if tier == "thorough":
                    out.append(["triples", a, m, n])
            for m in range(len(MODES)):
                if tier == "quick":
                    out.append(["triples", a, m, (m + a) % len(MODES)])
                out.append(["seq", a, m, 0])
                out.append(["books", a, m, 0])
            out.append(["refused", a, 0, 0])
            out += [["crowd", a, m, n] for m in (0, 1) for n in (5, 9, 17, 33, 70)]
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        kind, a, m, n = case
        specs = AXES[a]

        def member(mode, state, specs=specs):
            ref = Ref(specs, **MODES[mode])
            h = ref.hist()
            if FILLS[state] is not None:
                rows = [ROWS[i] for i in FILLS[state]]
                fill(h, rows)
                ref.fill(rows)
            return h, ref

        def same(obs, exp, what):
            cx.step()
            cx.trace()
            cx.outcome(obshash(obs))
            d = diff(obs, exp)
            if d is not None:
                raise core.Violation("%r: %s\n%s" % (specs, what, d))

        def refused(exc, fn, what):
            cx.step()
            try:
                fn()
            except exc:
                return
            raise core.Violation("%r: %s was not refused with %r" % (specs, what, exc))

        def inspect(g, model, names, what, by="source", deep=True):
            cx.state((case, what))
            obs = observe(g)
            same(obs, model.expected(), what)
            axes = list(g.axis)
            if axes != [groupby(by)] + [mk(s) for s in Ref(specs).specs]:
                raise core.Violation("%s: axes are %r" % (what, axes))
            if set(map(str, g.groupkeys(by))) != set(names):
                raise core.Violation("%s: names are %r, expected %r" % (what, g.groupkeys(by), names))
            keep = [mk(s) for s in specs if not isprofile(s)]
            same(observe(g.project(*keep)), model.projected(), what + " projected")
            if not deep:
                return
            for name in names:
                one = g.select("%s == %r" % (by, name))
                same(observe(one), model.only([name]), what + " select " + name)
                same(observe(one.project(*keep)), model.projected([name]), what + " select and project " + name)
                rest = [x for x in names if x != name]
                if rest:
                    same(observe(g.select("%s != %r" % (by, name))), model.only(rest), what + " select all but " + name)

        if kind == "crowd":
            # many names, half of them added later, some of them twice
            names = ["n%02d" % (j * 31 % n) for j in range(n)]
            model = Group(specs)
            model.weighted = bool(MODES[m])
            hists = {}
            for j, name in enumerate(names):
                hists[name], ref = member(m, (j + 1) % len(FILLS))
                model.add(name, ref)
            g = Hist.group(**dict((x, hists[x]) for x in names[:n // 2]))
            for x in names[n // 2:]:
                g.togroup(**{x: hists[x]})
            again, ref = member(m, 3)
            g.togroup(**{names[0]: again, names[-1]: again})
            model.add(names[0], ref)
            model.add(names[-1], ref)
            inspect(g, model, names, "%d names" % n, deep=n < 10)
            return

        if kind in ("pairs", "triples"):
            names = ["a", "b"] if kind == "pairs" else ["b", "a", "c"]
            modes = [m, n] if kind == "pairs" else [m, n, m]
            third = [0] if kind == "pairs" else [3]
            mixed = len(set(bool(MODES[q]) for q in modes)) > 1
            for states in itertools.product(range(len(FILLS)), repeat=2):
                states = list(states) + third
                made = dict((nm, member(md, st)) for nm, md, st in zip(names, modes, states))
                before = dict((nm, observe(h.copy())) for nm, (h, r) in made.items())
                model = Group(specs)
                model.weighted = bool(MODES[modes[0]])
                for nm in names:
                    model.add(nm, made[nm][1])
                orders = list(itertools.permutations(names))
                if kind == "triples":
                    orders = orders[sum(states) % 2::2]
                for order in orders:
                    kw = dict((nm, made[nm][0]) for nm in order)
                    what = "group(%s)" % ", ".join("%s=%r filled %r" % (nm, MODES[modes[names.index(nm)]], FILLS[states[names.index(nm)]]) for nm in order)
                    if mixed:
                        refused(TypeError, lambda: Hist.group(**kw), what)
                    else:
                        g = Hist.group(**kw)
                        inspect(g, model, names, what, deep=order == tuple(names))
                for nm, (h, r) in made.items():
                    same(observe(h), before[nm], "the member after grouping")
            cx.sample({"axes": specs, "modes": [MODES[q] for q in modes]})

        elif kind == "seq":
            depth = 3 if cx.tier == "thorough" else 2
            weighted = bool(MODES[m])
            h, ref = member(m, 2)
            base = Group(specs)
            base.weighted = weighted
            base.add("a", ref)
            for seq in itertools.chain.from_iterable(itertools.product(STEPS, repeat=k) for k in range(1, depth + 1)):
                g = Hist.group(by="s", a=h)
                model = base.copy()
                names = ["a"]
                for i, (nm, mode, state) in enumerate(seq):
                    x, r = member(mode, state)
                    what = "group(a) " + " ".join("togroup(%s: %r filled %r)" % (q[0], MODES[q[1]], FILLS[q[2]]) for q in seq[:i + 1])
                    if bool(MODES[mode]) != weighted:
                        refused(TypeError, lambda: g.togroup(**{nm: x}), what)
                    else:
                        xbefore = observe(x.copy())
                        g.togroup(**{nm: x})
                        model.add(nm, r)
                        if nm not in names:
                            names.append(nm)
                        same(observe(x), xbefore, "the member after togroup")
                inspect(g, model, names, what, by="s", deep=len(seq) < 2)
            # two members in one call, then a fill through the group
            x, r = member(m, 1)
            y, s = member(m, 3)
            g = Hist.group(by="s", a=h)
            g.togroup(b=x, c=y)
            model = base.copy()
            model.add("b", r)
            model.add("c", s)
            inspect(g, model, ["a", "b", "c"], "togroup of two", by="s")
            if "filter" not in MODES[m]:
                data = columns(ROWS[:3], FIELDS)
                data["s"] = numpy.array(["c", "zz", "a"])
                g.fill(data)
                for row, nm in zip(ROWS[:3], data["s"]):
                    q = Ref(specs, **MODES[m])
                    q.fill([row])
                    model.add(str(nm), q)
                inspect(g, model, ["a", "b", "c"] + (["zz"] if any(k[0][1] == "zz" for k in model.stats) or set(map(str, g.groupkeys("s"))) >= {"zz"} else []), "filled through the group", by="s")

        elif kind == "books":
            other = (m + 2) % len(MODES) if bool(MODES[(m + 2) % len(MODES)]) == bool(MODES[m]) else m
            for sa, sb, sc in itertools.product(range(len(FILLS)), repeat=3):
                h1, r1 = member(m, sa)
                h2, r2 = member(other, sb)
                h3, r3 = member(m, sc)
                h4, r4 = member(m, 2)
                one = Book({"h": h1, "sub/k": h3})
                two = Book({"sub/k": h4, "only": h3.copy(), "h": h2})
                one.attach("q", 1)
                what = "Book.group filled %r %r %r" % (FILLS[sa], FILLS[sb], FILLS[sc])
                g = Book.group(by="s", a=one, b=two)
                if g.allkeys() != ["h", "sub", "sub/k", "only"]:
                    raise core.Violation("%s: names are %r" % (what, g.allkeys()))
                for path, members in [("h", [("a", r1), ("b", r2)]), ("sub/k", [("a", r3), ("b", r4)]), ("only", [("b", r3)])]:
                    model = Group(specs)
                    model.weighted = bool(MODES[m])
                    for nm, r in members:
                        model.add(nm, r)
                    inspect(g[path], model, [nm for nm, r in members], what + " " + path, by="s", deep=False)
                if not isinstance(g, Book) or not isinstance(g["sub"], Book) or g.attachment != {"q": 1}:
                    raise core.Violation(what + ": not a book like its members")
                same(observe(h1), r1.expected(), "the member after grouping")
            bad = Book({"h": Book()})
            refused(TypeError, lambda: Book.group(a=one, b=bad), "Book.group of a histogram and a book")
            refused(TypeError, lambda: Book.group(a=one, b=h1), "Book.group with a histogram")

        else:
            h, r = member(0, 2)
            others = [x for i, x in enumerate(AXES) if i != a]
            # one axis or profile different, missing or twice; profiles in another order
            mine = AXES[a]
            for i, one in enumerate(mine):
                others += [mine[:i] + [[one[0], e] + one[2:]] + mine[i + 1:] for e in (("w", "x + i") if one[0] != "cut" else ("w > 1", "x + i > 1"))] + [mine[:i] + mine[i + 1:], mine[:i] + [one, one] + mine[i + 1:], mine + [["profile", "w"]]]
                if one[0] == "bin":
                    others += [mine[:i] + [["bin", "x", n, lo, hi, f]] + mine[i + 1:] for n, lo, hi, f in ((2, 0, 2, "_" + one[5][1:]), (3, 0, 2, one[5]), (2, 0, 4, one[5]), (2, -2, 2, one[5]), (2, 0, 2, one[5][:3] + "H")) if [n, lo, hi, f] != one[2:]]
            if [s[0] for s in mine].count("profile") > 1:
                others.append([s for s in mine if s[0] != "profile"] + [s for s in mine if s[0] == "profile"][::-1])
            others = [o for o in others if o]
            g = Hist.group(by="s", a=h)
            before = observe(g)
            for o in others:
                k, q = member(0, 3, o)
                refused(TypeError, lambda: Hist.group(a=h, b=k), "group of %r and %r" % (specs, o))
                refused(TypeError, lambda: Hist.group(b=k, a=h), "group of %r and %r" % (o, specs))
                refused(TypeError, lambda: g.togroup(b=k), "togroup of %r" % (o,))
                refused(TypeError, lambda: g.togroup(a=h, b=k), "togroup of %r" % (o,))
            w, q = member(1, 2)
            refused(TypeError, lambda: g.togroup(b=h, c=w), "togroup of weighted")
            refused(TypeError, lambda: g.togroup(c=w, b=h), "togroup of weighted")
            refused(TypeError, lambda: Hist.group(a=h, b=3), "group of a number")
            refused(TypeError, lambda: g.togroup(b=None), "togroup of None")
            refused(ValueError, lambda: Hist.group(), "group of nothing")
            refused(ValueError, lambda: Hist.group(by="s", a=g), "group by an existing axis")
            if not isgroup(specs[0]) or specs[0][0] == "groupbin":
                refused(ValueError, lambda: h.togroup(b=h), "togroup of a histogram that is not a group")
            same(observe(g), before, "the group after refused calls")
            # a group of groups
            k, q = member(0, 3)
            g2 = Hist.group(by="s", a=k, b=h)
            gg = Hist.group(by="t", u=g, v=g2)
            want = {}
            for nm, src in (("u", g), ("v", g2)):
                for key, v in observe(src).items():
                    want[(("g", nm),) + key] = v
            same(observe(gg), want, "group of groups")


CHECK = Check()
