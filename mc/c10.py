"""C10: derived histograms and books are independent of their sources.

Explored: every derivation, followed by every second step (another derivation from either side, or a mutation of
either side), followed by chains of mutations that start on each of the objects in turn. After every step every
object except the one mutated must show exactly what it showed before, and the mutated object must show what an
unshared twin (made by a pickle round trip just before the step) shows after the same mutation."""
import copy
import itertools
import json
import pickle

from mc.ref import *
from mc.c03 import ROWS, FIELDS, fill
from histbook.book import GenericBook, SamplesBook, ChannelsBook

CONFIGS = [
    # axes, options, select, project onto, rebin edges, rebinby axis, dropped profile
    dict(specs=[["bin", "x", 2, 0, 2, "UONL"]], opts={}, select="x >= 0", project=[], rebin=("x", [0, 2]), rebinby="x", drop=None),
    dict(specs=[["groupby", "g"], ["bin", "x", 2, 0, 2, "UO_L"], ["profile", "y"], ["profile", "x"]], opts={"weight": "w"}, select="g != 'b'", project=["x"], rebin=("x", [0, 1, 2]), rebinby="x", drop="y"),
    dict(specs=[["groupby", "g"], ["groupbin", "x", 1, 0, "NL"]], opts={"filter": "x > 0.6"}, select="x >= 0", project=["g"], rebin=None, rebinby="x", drop=None),
    dict(specs=[["split", "x", [0, 1, 3], "UO_H"], ["cut", "y > 1"], ["profile", "y"]], opts={"weight": "w*k", "defs": {"k": "1 + i"}}, select="y > 1", project=["x"], rebin=("x", [1, 3]), rebinby="x", drop="y"),
    dict(specs=[["groupbin", "x", 1, 0, "NL"], ["profile", "y"]], opts={}, select="x != nan", project=["x"], rebin=None, rebinby="x", drop="y"),
]
EMPTY = {"x": numpy.array([]), "y": numpy.array([]), "i": numpy.array([]), "g": numpy.array([], dtype="U2"), "w": numpy.array([])}


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, numpy.ndarray):
        return (x.shape, x.tobytes())
    return repr(x)


def dropzeros(x):
    """Group keys without any content say nothing."""
    if isinstance(x, dict):
        y = dict((k, dropzeros(v)) for k, v in x.items())
        return dict((k, v) for k, v in y.items() if not (isinstance(v, dict) and not v) and not (isinstance(v, numpy.ndarray) and not v.any()))
    return x


def snap(x):
    """Everything a user can see of a histogram or book."""
    if isinstance(x, Hist):
        profs = [a for a in x.axis if isinstance(a, histbook.axis.ProfileAxis)]
        t = x.table(*profs, effcount=True, recarray=False)
        return ("Hist", tuple(map(repr, x.axis)), freeze(dropzeros(t)), freeze(x.attachment), repr(x))
    return (type(x).__name__, tuple((n, snap(y)) for n, y in x.items()), freeze(x.attachment))


KEEPS = ("copy", "copyonfill", "cleared", "x * 2", "1 * x", "x * 1", "weight", "filter", "pickle", "deepcopy", "json", "select", "project", "project all", "rebinby 1", "rebinby 2", "rebin", "drop")


def notes(x):
    if isinstance(x, Hist):
        return (freeze(x.attachment), sorted((n, str(y)) for n, y in x.defs.items()))
    return (freeze(x.attachment), [(n, notes(y)) for n, y in x.items()])


def ishist(x):
    return isinstance(x, Hist)


def derivations(cfg):
    d = {
        "copy": lambda x, o: x.copy(),
        "copyonfill": lambda x, o: x.copyonfill(),
        "cleared": lambda x, o: x.cleared(),
        "x + other": lambda x, o: x + o,
        "other + x": lambda x, o: o + x,
        "x + cleared": lambda x, o: x + x.cleared(),
        "cleared + x": lambda x, o: x.cleared() + x,
        "x * 2": lambda x, o: x * 2,
        "1 * x": lambda x, o: 1 * x,
        "weight": lambda x, o: x.weight("w"),
        "filter": lambda x, o: x.filter("y > 1"),
        "systematic": lambda x, o: x.systematic((1, 2)),
        "constructor": lambda x, o: Hist(*x.axis, attachment=x.attachment, defs=x.defs),
        "pickle": lambda x, o: pickle.loads(pickle.dumps(x)),
        "deepcopy": lambda x, o: copy.deepcopy(x),
        "json": lambda x, o: Hist.fromjson(x.tojson()),
        "select": lambda x, o: x.select(cfg["select"]),
        "project": lambda x, o: x.project(*cfg["project"]),
        "project all": lambda x, o: x.project(*[a for a in x.axis if not isinstance(a, histbook.axis.ProfileAxis)]),
        "rebinby 1": lambda x, o: x.rebinby(cfg["rebinby"], 1),
        "rebinby 2": lambda x, o: x.rebinby(cfg["rebinby"], 2),
        "group": lambda x, o: Hist.group(by="s", a=x, b=x),
    }
    if cfg["rebin"]:
        d["rebin"] = lambda x, o: x.rebin(*cfg["rebin"])
    if cfg["drop"]:
        d["drop"] = lambda x, o: x.drop(cfg["drop"])
    return d


def bookderivations():
    return {
        "copy": lambda x, o: x.copy(),
        "copyonfill": lambda x, o: x.copyonfill(),
        "cleared": lambda x, o: x.cleared(),
        "x + other": lambda x, o: x + o,
        "other + x": lambda x, o: o + x,
        "x * 2": lambda x, o: x * 2,
        "x * 1": lambda x, o: x * 1,
        "pickle": lambda x, o: pickle.loads(pickle.dumps(x)),
        "deepcopy": lambda x, o: copy.deepcopy(x),
        "json": lambda x, o: GenericBook.fromjson(x.tojson()),
        "group": lambda x, o: Book.group(by="s", a=x, b=o),
        "samples": lambda x, o: SamplesBook(["u", "v"], x)["u"],
        "inner copyonfill": lambda x, o: Book({"h": x["h"].copyonfill(), "sub/k": x["sub"]["k"].copyonfill()}),
    }


def fillany(x, rows):
    data = columns(rows, FIELDS) if rows else dict(EMPTY)
    data["s"] = numpy.array(["a", "c", "b", "a", "d"][:len(rows)])
    x.fill(data)


def withmore(x):
    y = x.cleared()
    fillany(y, ROWS[1:4])
    return y


def scribble(x):
    """Whatever a read returned belongs to the caller."""
    def walk(t):
        if isinstance(t, dict):
            for v in t.values():
                walk(v)
            t.clear()
        elif isinstance(t, numpy.ndarray):
            t[...] = -7.0
    for h in ([x] if ishist(x) else x.values(recursive=True, onlyhist=True)):
        walk(h.table(recarray=False))
        j = h.tojson()
        j.setdefault("attachment", {})["k"] = "scribbled"
        j.setdefault("defs", {})["k"] = "scribbled"


OTHERS = {          # mutations that take another of the objects
    "+= 0": lambda x, objs: x.__iadd__(objs[0]),
    "+= 1": lambda x, objs: x.__iadd__(objs[1]),
    "+= 2": lambda x, objs: x.__iadd__(objs[2]),
    "togroup 0": lambda x, objs: x.togroup(a=objs[0], new=objs[0]),
    "togroup 1": lambda x, objs: x.togroup(b=objs[1], new=objs[1]),
}
MUTATIONS = {
    "fill": lambda x: fillany(x, ROWS[:3]),
    "fill empty": lambda x: fillany(x, []),
    "*=": lambda x: x.__imul__(2),
    "+=": lambda x: x.__iadd__(withmore(x)),
    "clear": lambda x: x.clear(),
    "attach": lambda x: x.attach("k", "new"),
    "attachment": lambda x: x.attachment.update({"k": "direct", "more": 1}),
    "detach": lambda x: x.detach("k") if x.has("k") else None,
    "scribble": scribble,
}
BOOKMUTATIONS = dict(MUTATIONS, **{
    "inner fill": lambda x: fillany(x["h"], ROWS[2:4]) if not isinstance(x["h"], Book) else None,
    "inner attach": lambda x: x["sub/k"].attach("k", 5),
    "set": lambda x: x.__setitem__("sub/new", Hist(bin("x", 2, 0, 2))),
    "delete": lambda x: x.__delitem__("sub/k"),
    "inner clear": lambda x: x["sub"].clear(),
})
CHAINS = [["fill", "*=", "attach"], ["*=", "fill"], ["+=", "clear", "fill"], ["clear", "fill", "attachment"]]
BOOKCHAINS = [["fill", "inner attach", "*="], ["inner fill", "fill", "attach"], ["delete", "fill"], ["+=", "inner clear", "set", "fill"]]


class Check(object):
    id = "C10"
    case_timeout = 400
    assumptions = ["attachment values themselves are treated as immutable", "books are derived by the documented methods; a book constructed from histograms refers to those histograms by design", "copy.copy() is not claimed"]

    def bounds(self, tier):
        return {"configs": len(CONFIGS), "derivations": [sorted(derivations(CONFIGS[1])), sorted(bookderivations())], "mutations": [sorted(MUTATIONS), sorted(BOOKMUTATIONS)],
                "mutations with another object": sorted(OTHERS), "depth": "derivation, then every derivation or mutation of either side, then mutation chains starting on each object in turn" + ("; and a third derivation" if tier == "thorough" else "")}

    def cases(self, tier):
        out = []
        for c in range(len(CONFIGS)):
            for d in sorted(derivations(CONFIGS[c])):
                out.append(["hist", c, d])
        for c in range(len(CONFIGS)):
            for d in sorted(bookderivations()):
                out.append(["book", c, d])
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        kind, c, first = case
        cfg = CONFIGS[c]
        ref = Ref(cfg["specs"], **cfg["opts"])
        if kind == "hist":
            D, M, chains = derivations(cfg), MUTATIONS, CHAINS
        else:
            D, M, chains = bookderivations(), BOOKMUTATIONS, BOOKCHAINS

        def start(filled):
            a, b = ref.hist(), ref.hist()
            if filled:
                fill(a, ROWS[:2])
                fill(b, ROWS[2:4])
            a.attach("k", "a")
            if kind == "hist":
                return [a, b]
            p = Book({"h": a, "sub/k": ref.hist()})
            q = Book({"h": b, "sub/k": ref.hist(), "only": ref.hist()})
            if filled:
                fill(p["sub/k"], ROWS[1:4])
                fill(q["only"], ROWS[:1])
            p.attach("k", "book")
            p["sub"].attach("k", "sub")
            return [p, q]

        def derive(objs, snaps, i, name, what):
            """Returns False if this derivation does not apply to this object."""
            try:
                new = D[name](objs[i], objs[1])
            except (IndexError, KeyError, ValueError, TypeError):
                return False       # e.g. a projected axis cannot be projected again; C14 checks refused calls
            now = [snap(x) for x in objs]
            for k, (x, y) in enumerate(zip(now, snaps)):
                if x != y:
                    raise core.Violation("%s changed object %d\nbefore %r\nafter  %r" % (what, k, y, x))
            objs.append(new)
            snaps.append(snap(new))
            if name in ("copy", "copyonfill", "pickle", "deepcopy", "json", "1 * x", "x * 1") and snaps[-1] != snaps[i]:
                raise core.Violation("%s is not the same\n%r\n%r" % (what, snaps[i], snaps[-1]))
            if name in KEEPS and notes(new) != notes(objs[i]):
                raise core.Violation("%s has not the same attachments and definitions\n%r\n%r" % (what, notes(objs[i]), notes(new)))
            return True

        def mutate(objs, snaps, i, name, what):
            twin = pickle.loads(pickle.dumps(objs[i]))
            act = M[name] if name in M else lambda x: OTHERS[name](x, objs)
            ok = True
            try:
                act(twin)
            except (KeyError, TypeError, ValueError, AttributeError) as err:
                if name in M and not isinstance(err, (KeyError, TypeError)):
                    raise
                ok = False
            if not ok:
                return
            act(objs[i])
            for k in range(len(objs)):
                now = snap(objs[k])
                if k == i:
                    want = snap(twin)
                    if now != want:
                        raise core.Violation("%s: the object itself should be\n%r\nbut is\n%r" % (what, want, now))
                    snaps[k] = now
                elif now != snaps[k]:
                    raise core.Violation("%s changed object %d\nbefore %r\nafter  %r" % (what, k, snaps[k], now))

        def play(steps, filled):
            objs = start(filled)
            snaps = [snap(x) for x in objs]
            hist = []
            for op, i, name in steps:
                if i >= len(objs):
                    return
                hist.append("%s(%d) %s" % (op, i, name))
                what = "%r %r filled=%r\n%s" % (cfg["specs"], cfg["opts"], filled, "; ".join(hist))
                cx.step()
                if op == "derive":
                    if not derive(objs, snaps, i, name, what):
                        return
                else:
                    mutate(objs, snaps, i, name, what)
                cx.state((case, what))
                cx.outcome(repr(snaps))
            cx.trace()

        seconds = [("derive", i, d) for i in (0, 2) for d in sorted(D)] + [("mutate", i, m) for i in (0, 1, 2) for m in sorted(M) + sorted(OTHERS) if m not in ("+= %d" % i, "togroup %d" % i)]
        tails = []
        for n, chain in enumerate(chains):
            for i in (0, 2, 3):
                rest = [j for j in (2, 0, 3, 1) if j != i]
                tails.append([("mutate", i, chain[0])] + [("mutate", rest[k % 4 if k < len(rest) else 0], m) for k, m in enumerate(chain[1:])] + [("mutate", j, chain[0]) for j in rest])
        offset = core.h64(case) % 10
        for s, second in enumerate(seconds, offset):
            for t, tail in enumerate(tails):
                if cx.tier == "quick" and (t + s) % 10 and not (second[2] in OTHERS and t % 3 == 0):
                    continue
                play([("derive", 0, first), second] + tail, True)
                if (t + s) % 20 == 0:
                    play([("derive", 0, first), second] + tail, False)
            if cx.tier == "thorough" and second[0] == "derive":
                for third in sorted(D):
                    for i in (0, 2, 3):
                        play([("derive", 0, first), second, ("derive", i, third)] + tails[(s + i) % len(tails)] + [("mutate", 4, "fill")], True)
        cx.sample({"axes": cfg["specs"], "history": [["derive", 0, first], seconds[0]] + tails[0]})


CHECK = Check()
