"""C19: views, samples and systematics books fill exactly what they select.

view     every tree of a family (nested books of every class, aliased histograms) x every pattern: membership, order and identity, refusal when nothing
         matches, one fill
viewseq  every sequence, up to the depth, of fills of new views, views kept from before, views of copies, members and subbooks, clearing and scaling
         of views, on trees of channels and samples
samples  every sequence, up to the depth, of fills and changes of samples, of the histograms they were made from, of copies and restored books
syst     every sequence, up to the depth, of insertions (compatible or not, with and without a systematic, nested), deletions, fills, copies and
         restorations of a systematics book against the acceptance predicate, and every way of constructing one
Every histogram has a twin that only ever gets the fills its original should have got; after every step all of them are compared."""
import collections
import copy
import itertools
import json
import pickle

from mc.ref import *
from histbook.book import GenericBook, ChannelsBook, SamplesBook, SystematicsBook, ViewBook
from mc.c10 import snap
from mc.c15 import glob

DATA = [
    {"x": numpy.array([0.5, 1.5, 0.25]), "y": numpy.array([1.0, 2.0, 4.0]), "g": numpy.array(["a", "b", "a"])},
    {"x": numpy.array([1.25]), "y": numpy.array([0.5]), "g": numpy.array(["c"])},
    {"x": numpy.array([-1.0, 5.0]), "y": numpy.array([8.0, 3.0]), "g": numpy.array(["b", "b"])},
]


def leaf(k, **kw):
    A = histbook.axis
    if k == 0:
        return Hist(A.bin("x", 2, 0, 2), **kw)
    if k == 1:
        return Hist(A.groupby("g"), A.bin("x", 2, 0, 2), A.profile("y"), weight="y", **kw)
    if k == 2:
        return Hist(A.split("x + y", [1, 2, 4]), filter="x > 0", **kw)
    if k == 3:
        return Hist(A.groupbin("x", 1), A.cut("y > 1"), **kw)


# kind, {name: tree or leaf number or ("=", path of an alias)}
def T(kind, *items):
    return [kind] + [list(i) for i in items]


TREES = [
    T("Channels", ("a", 0), ("b", 1)),
    T("Channels", ("a", T("Book", ("h", 0), ("k", 1))), ("b", T("Book", ("h", 2), ("k", 0)))),
    T("Channels", ("a", T("Book", ("h", 0), ("s", T("Book", ("h", 1), ("k", 2))))), ("h", 3)),
    T("Channels", ("a", T("Channels", ("h", 0))), ("b", T("Channels", ("h", 1), ("k", 3))), ("c", T("Book"))),
    T("Channels", ("a", T("Systematics", ("up", 0), ("dn", 0))), ("b", T("Systematics", ("up", 1), ("dn", 1)))),
    T("Channels", ("a", T("Book", ("h", 0))), ("b", T("Book", ("h", ["=", "a/h"]), ("k", 1)))),
    T("Channels"),
    T("Channels", ("a", T("Book"))),
    T("Samples", ("a", T("Book", ("h", 0), ("k", 1))), ("b", T("Book", ("h", 0), ("k", 1)))),
    T("Samples", ("a", T("Book", ("h", 0), ("s", T("Book", ("h", 2))))), ("bb", T("Book", ("h", 0), ("s", T("Book", ("h", 2)))))),
    T("Channels", ("a", 0), ("A", 1), ("b", T("Book", ("H", 2), ("h", 0), ("hh", 3))), ("B", T("Book", ("h", 0), ("h.x", 1)))),
    T("Channels", ("a1", 0), ("a10", 1), ("a2", T("Book", ("a1", 2), ("a-1", 0))), ("a 1", 3)),
]
PATTERNS = ["*", "a", "b", "a/*", "*/h", "*/k", "?/h", "h", "*h", "a/h", "b/h", "a/s/*", "a/s/k", "*/s/*", "*/*/h", "*/*", "[ab]/*", "[!a]*", "*/[hk]", "*/up", "a/?p", "zz", "A/*", "a*", "*b/*", "?", "a/s", "bb/*", "[ab]", "[AB]/h", "[!A]", "B/*", "b/h*", "*/h", "*/H", "*.x", "h.x", "*/h?x", "a1", "a1*", "a?1", "a[-12]*", "a[0-9]", "a[!0-9]*", "*1", "*1*", "a2/a?1", "a 1", "[a-b]*", "*/?", "*a*"]
SEQTREES = [1, 2, 4, 5, 8, 9]
SEQPATTERNS = ["*", "a/*", "*/h", "*/k", "*/up", "[!a]*", "a/s/*"]


def build(tree, hists, path=""):
    kind, items = tree[0], tree[1:]
    if kind == "Samples":
        names = [n for n, x in items]
        inner = collections.OrderedDict((n, build(x, {}) if isinstance(x, list) and x[0] != "=" else leaf(x)) for n, x in items[0][1][1:])
        out = SamplesBook(names, inner)
        for n, x in out.allitems(onlyhist=True):
            hists[n] = x
        return out
    out = {"Book": Book, "Channels": ChannelsBook, "Systematics": SystematicsBook}[kind]()
    for i, (n, x) in enumerate(items):
        if isinstance(x, int):
            h = leaf(x, systematic=(i,)) if kind == "Systematics" else leaf(x)
            hists[path + n] = h
            out[n] = h
        elif x[0] == "=":
            hists[path + n] = hists[x[1]]
            out[n] = hists[x[1]]
        else:
            out[n] = build(x, hists, path + n + "/")
    return out


def roundtrip(b, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(b))
    if how == "json":
        return GenericBook.fromjson(json.loads(json.dumps(b.tojson())))
    if how == "deepcopy":
        return copy.deepcopy(b)
    return getattr(b, how)()


class Twins(object):
    """path -> twin; the same real histogram has the same twin."""

    def __init__(self, book):
        self.book = book
        self.paths = book.allkeys(onlyhist=True)
        self.real = dict((p, book[p]) for p in self.paths)
        byid = {}
        self.twin = dict((p, byid.setdefault(id(h), h.cleared())) for p, h in self.real.items())

    def distinct(self, paths):
        out = collections.OrderedDict((id(self.twin[p]), self.twin[p]) for p in paths)
        return list(out.values())

    def matching(self, pattern):
        m = glob(pattern)
        return [p for p in self.paths if m(p)]

    def compare(self, what):
        if self.book.allkeys(onlyhist=True) != self.paths:
            raise core.Violation("%s: the book now has %r instead of %r" % (what, self.book.allkeys(onlyhist=True), self.paths))
        for p in self.paths:
            h = self.book[p]
            if h is not self.real[p]:
                raise core.Violation("%s: %r was replaced" % (what, p))
            if snap(h) != snap(self.twin[p]):
                raise core.Violation("%s: %r has %r instead of %r" % (what, p, snap(h), snap(self.twin[p])))

    def key(self):
        return tuple(snap(self.twin[p]) for p in self.paths)


def checkview(v, tw, pattern, what):
    want = tw.matching(pattern)
    if not isinstance(v, Book):
        raise core.Violation("%s: the view is a %r, which cannot be filled" % (what, type(v)))
    if v.allkeys(onlyhist=True) != want:
        raise core.Violation("%s: the view has %r instead of %r" % (what, v.allkeys(onlyhist=True), want))
    for p in want:
        if v[p] is not tw.real[p]:
            raise core.Violation("%s: %r of the view is not in place" % (what, p))
    books = set(p.rsplit("/", k)[0] for p in want for k in range(1, p.count("/") + 1))
    if set(v.allkeys()) != set(want) | books:
        raise core.Violation("%s: the view also has %r" % (what, v.allkeys()))


VIEWOPS = [("fillview", p, d) for p, d in (("*", 0), ("a/*", 1), ("*/h", 0), ("*/k", 2), ("*/up", 1), ("[!a]*", 2), ("a/s/*", 0))]
VIEWOPS += [("hold", "*/h"), ("hold", "*"), ("hold", "a/*"), ("fillheld", 0), ("fillheld", 1), ("member", 0, 0), ("member", 1, 1), ("sub", 0, 2), ("clearview", "*/h"), ("clearview", "a/*"), ("scaleview", "*"), ("addview", "*/h"), ("copyview", "*/h", 0), ("copybook", "copy", 1), ("copybook", "copyonfill", 0), ("copybook", "pickle", 1), ("copybook", "json", 2), ("badfill", "*"), ("nomatch", "zz/*")]


def viewop(tw, held, op, what):
    """Returns False if the operation does not apply here."""
    b, verb = tw.book, op[0]
    if verb in ("fillview", "clearview", "scaleview", "addview", "copyview", "hold", "badfill"):
        paths = tw.matching(op[1])
        if not paths:
            return False
        v = b.view(op[1])
        checkview(v, tw, op[1], what)
        if verb == "fillview":
            v.fill(DATA[op[2]])
            for t in tw.distinct(paths):
                t.fill(DATA[op[2]])
        elif verb == "hold":
            held.append((v, paths))
        elif verb == "clearview":
            v.clear()
            for t in tw.distinct(paths):
                t.clear()
        elif verb == "scaleview":
            if len(tw.distinct(paths)) != len(paths):
                return False
            v *= 2
            for t in tw.distinct(paths):
                t *= 2
        elif verb == "addview":
            if len(tw.distinct(paths)) != len(paths):
                return False
            v += v.copy()
            for t in tw.distinct(paths):
                t += t.copy()
        elif verb == "copyview":
            c = v.copy()
            c.fill(DATA[op[2]])
            c = v.copyonfill()
            c.fill(DATA[op[2]])
        elif verb == "badfill":
            try:
                v.fill(x=DATA[0]["x"], g=DATA[0]["g"])
            except Exception:
                pass
            else:
                # no histogram of the view needed y: then it was a proper fill
                for t in tw.distinct(paths):
                    t.fill(x=DATA[0]["x"], g=DATA[0]["g"])
    elif verb == "fillheld":
        if not held:
            return False
        v, paths = held[-1]
        v.fill(DATA[op[1]])
        for t in tw.distinct(paths):
            t.fill(DATA[op[1]])
    elif verb == "member":
        p = tw.paths[op[1] % len(tw.paths)]
        tw.real[p].fill(DATA[op[2]])
        tw.twin[p].fill(DATA[op[2]])
    elif verb == "sub":
        name = b.keys()[op[1]]
        if not isinstance(b[name], Book):
            return False
        b[name].fill(DATA[op[2]])
        for t in tw.distinct([p for p in tw.paths if p.startswith(name + "/")]):
            t.fill(DATA[op[2]])
    elif verb == "copybook":
        c = roundtrip(b, op[1])
        if type(c) is not type(b) or c.allkeys() != b.allkeys() or [type(x) for x in c.allvalues()] != [type(x) for x in b.allvalues()]:
            raise core.Violation("%s: restored as %r" % (what, c))
        c.view("*").fill(DATA[op[2]])
        if len(set(map(id, tw.real.values()))) == len(tw.paths):
            for p in tw.paths:
                t = tw.twin[p].copy()
                t.fill(DATA[op[2]])
                if snap(c[p]) != snap(t):
                    raise core.Violation("%s: %r of the copy has %r instead of %r" % (what, p, snap(c[p]), snap(t)))
    elif verb == "nomatch":
        try:
            b.view(op[1])
        except ValueError:
            pass
        else:
            raise core.Violation("%s: a view of nothing" % what)
    return True


# ------------------------------------------------------------ samples
SAMPLEOPS = [("fill", "u", 0), ("fill", "v", 1), ("fill", "v", 0), ("member", "u", 2), ("source", 0), ("source", 1), ("clear", "u"), ("scale", "v"), ("clearsource",), ("view", "u/*", 1), ("view", "*/h", 0), ("restore", "pickle"), ("restore", "json"), ("restore", "copy"), ("restore", "copyonfill"), ("restore", "deepcopy"), ("attach", "u"), ("insert", "v"), ("delete", "v")]
SAMPLEKINDS = ["dict", "keywords", "varargs", "nested", "prefilled", "dict prefilled", "three"]


def makesamples(kind):
    src = collections.OrderedDict([("h", leaf(0)), ("k", leaf(1))])
    if kind == "nested":
        src = collections.OrderedDict([("h", leaf(3)), ("s", Book({"k": leaf(1)}))])
    if "prefilled" in kind:
        for x in src.values():
            x.fill(DATA[0])
    names = ["u", "v"] + (["w"] if kind == "three" else [])
    if kind == "keywords":
        b = SamplesBook(names, **src)
    elif kind == "varargs":
        b = SamplesBook(names, *src.values())
    else:
        b = SamplesBook(names, src)
    hs = [x for x in src.values() if isinstance(x, Hist)] + [y for x in src.values() if isinstance(x, GenericBook) for y in x.allvalues(onlyhist=True)]
    return names, b, hs


class Samples(object):
    def __init__(self, kind):
        self.names, self.book, self.src = makesamples(kind)
        self.twins = dict((p, h.copy()) for p, h in self.book.allitems(onlyhist=True))
        self.srctwins = [h.copy() for h in self.src]
        self.extra = {}

    def under(self, pre):
        return [p for p in self.order() if p.startswith(pre + "/")]

    def order(self):
        return [p for p in self.book.allkeys(onlyhist=True)]

    def op(self, op, what):
        b, verb = self.book, op[0]
        if verb == "fill":
            if op[1] not in b:
                return False
            b[op[1]].fill(DATA[op[2]])
            for p in self.under(op[1]):
                self.twins[p].fill(DATA[op[2]])
        elif verb == "member":
            p = self.under(op[1])[0]
            b[p].fill(DATA[op[2]])
            self.twins[p].fill(DATA[op[2]])
        elif verb == "source":
            for h, t in zip(self.src, self.srctwins):
                h.fill(DATA[op[1]])
                t.fill(DATA[op[1]])
        elif verb == "clear":
            b[op[1]].clear()
            for p in self.under(op[1]):
                self.twins[p].clear()
        elif verb == "scale":
            if op[1] not in b:
                return False
            x = b[op[1]]
            x *= 0.5
            for p in self.under(op[1]):
                t = self.twins[p]
                t *= 0.5
        elif verb == "clearsource":
            for h, t in zip(self.src, self.srctwins):
                h.clear()
                t.clear()
        elif verb == "view":
            m = [p for p in self.order() if glob(op[1])(p)]
            if not m:
                return False
            b.view(op[1]).fill(DATA[op[2]])
            for p in m:
                self.twins[p].fill(DATA[op[2]])
        elif verb == "restore":
            c = roundtrip(b, op[1])
            if type(c) is not SamplesBook or not (c == b):
                raise core.Violation("%s: restored as %r" % (what, c))
            # the old one stays as it is: fill it once
            self.old, self.oldsnap = b, snap(b)
            self.book = c
        elif verb == "attach":
            h = b[self.under(op[1])[0]]
            h.attach("k", 1)
            self.twins[self.under(op[1])[0]].attach("k", 1)
        elif verb == "insert":
            if op[1] not in b:
                return False
            h = leaf(2)
            b[op[1] + "/new"] = h
            self.twins[op[1] + "/new"] = h.copy()
        elif verb == "delete":
            if op[1] not in b:
                return False
            for p in self.under(op[1]):
                del self.twins[p]
            del b[op[1]]
        return True

    def compare(self, what):
        if sorted(self.order()) != sorted(self.twins):
            raise core.Violation("%s: has %r instead of %r" % (what, self.order(), sorted(self.twins)))
        for p in self.order():
            if snap(self.book[p]) != snap(self.twins[p]):
                raise core.Violation("%s: %r has %r instead of %r" % (what, p, snap(self.book[p]), snap(self.twins[p])))
        for h, t in zip(self.src, self.srctwins):
            if snap(h) != snap(t):
                raise core.Violation("%s: a histogram the samples were made from has %r instead of %r" % (what, snap(h), snap(t)))
        if hasattr(self, "old") and snap(self.old) != self.oldsnap:
            raise core.Violation("%s: the restored book is not independent" % what)


# ------------------------------------------------------------ systematics
A = histbook.axis
CANDIDATES = {
    "ok": lambda: Hist(A.bin("x", 2, 0, 2), systematic=(0, 1)),
    "ok expr": lambda: Hist(A.bin("x + 0.1*y", 2, 0, 2), weight="y", systematic=(1,)),
    "ok profile": lambda: Hist(A.bin("x", 2, 0, 2), A.profile("y"), systematic=(2,)),
    "attached": lambda: Hist(A.bin("x", 2, 0, 2)).attach("systematic", (3,)),
    "method": lambda: Hist(A.bin("x", 2, 0, 2)).systematic((4,)),
    "none": lambda: Hist(A.bin("x", 2, 0, 2)),
    "bins": lambda: Hist(A.bin("x", 4, 0, 2), systematic=(0,)),
    "flags": lambda: Hist(A.bin("x", 2, 0, 2, nanflow=False), systematic=(0,)),
    "kind": lambda: Hist(A.split("x", [0, 1, 2]), systematic=(0,)),
    "axes": lambda: Hist(A.bin("x", 2, 0, 2), A.cut("y > 1"), systematic=(0,)),
    "group": lambda: Hist(A.groupby("g"), A.bin("x", 2, 0, 2), systematic=(0,)),
    "book": lambda: Book({"p": CANDIDATES["ok"](), "q": CANDIDATES["ok expr"]()}),
    "book2": lambda: Book({"q": CANDIDATES["attached"](), "p": CANDIDATES["ok profile"]()}),
    "book names": lambda: Book({"p": CANDIDATES["ok"]()}),
    "book none": lambda: Book({"p": CANDIDATES["none"](), "q": CANDIDATES["ok"]()}),
    "book bins": lambda: Book({"p": CANDIDATES["bins"](), "q": CANDIDATES["ok"]()}),
    "channels": lambda: ChannelsBook({"p": CANDIDATES["ok"](), "q": CANDIDATES["ok"]()}),
}
# what compatibility means for each: signature of the axes, and whether it has a systematic
BIN2 = "bin2"
SIG = {"ok": BIN2, "ok expr": BIN2, "ok profile": BIN2, "attached": BIN2, "method": BIN2, "none": BIN2, "bins": "bin4", "flags": "bin2-nan", "kind": "split", "axes": "bin2,cut", "group": "groupby,bin2",
       "book": ("Book", (("p", BIN2), ("q", BIN2))), "book2": ("Book", (("p", BIN2), ("q", BIN2))), "book names": ("Book", (("p", BIN2),)), "book none": ("Book", (("p", BIN2), ("q", BIN2))),
       "book bins": ("Book", (("p", "bin4"), ("q", BIN2))), "channels": ("ChannelsBook", (("p", BIN2), ("q", BIN2)))}
SYST = dict((k, k not in ("none", "book none")) for k in SIG)


def acceptable(members):
    return all(m[1] for m in members) and len(set(m[0] for m in members)) <= 1


SYSTOPS = [("set", "a", c) for c in sorted(CANDIDATES)] + [("set", "b", c) for c in ("ok", "none", "bins", "book", "book2", "channels", "ok profile")] + [("del", "a"), ("del", "b"), ("del", "c"), ("delwild", "[ab]"), ("fill", 0), ("fill", 1), ("memberfill", 0), ("copy", "copy"), ("copy", "copyonfill"), ("copy", "pickle"), ("copy", "json"), ("copy", "deepcopy"), ("add",), ("mul",), ("imul",), ("nested", "a/p", "ok"), ("nested", "a/r", "ok"), ("nested", "n/p", "ok"), ("nested", "n/p", "none")]
SYSTINITS = [[], [("set", "a", "ok")], [("set", "a", "ok"), ("set", "b", "ok expr")], [("set", "a", "book"), ("set", "b", "book2"), ("fill", 0)], [("set", "a", "book names")]]


class Syst(object):
    def __init__(self):
        self.book = SystematicsBook()
        self.members = collections.OrderedDict()       # name -> (signature of its axes, has systematics)
        self.twins = {}                                # path -> twin

    def settwins(self, name, obj):
        self.twins = dict((p, t) for p, t in self.twins.items() if p != name and not p.startswith(name + "/"))
        if isinstance(obj, Hist):
            self.twins[name] = obj.copy()
        else:
            for p, x in obj.allitems(onlyhist=True):
                self.twins[name + "/" + p] = x.copy()

    def op(self, op, what):
        b, verb = self.book, op[0]
        if verb == "set":
            obj = CANDIDATES[op[2]]()
            m = collections.OrderedDict(self.members)
            m[op[1]] = (SIG[op[2]], SYST[op[2]])
            ok = acceptable(m.values())
            try:
                b[op[1]] = obj
            except ValueError:
                if ok:
                    raise core.Violation("%s: refused %r" % (what, op))
            else:
                if not ok:
                    raise core.Violation("%s: accepted %r" % (what, op))
                self.members = m
                self.settwins(op[1], obj)
        elif verb == "nested":
            obj = CANDIDATES[op[2]]()
            name, inner = op[1].split("/")
            cur = self.members.get(name, (("Book", ()), True))
            m = None
            if not isinstance(cur[0], tuple):
                want = KeyError
            else:
                old = dict(cur[0][1])
                old[inner] = SIG[op[2]]
                m = collections.OrderedDict(self.members)
                m[name] = ((cur[0][0], tuple(sorted(old.items()))), cur[1] and SYST[op[2]])
                want = None if acceptable(m.values()) else ValueError
            try:
                b[op[1]] = obj
            except (ValueError, KeyError) as err:
                if want is None or not isinstance(err, want):
                    raise core.Violation("%s: refused %r with %r" % (what, op, err))
            else:
                if want is not None:
                    raise core.Violation("%s: accepted %r" % (what, op))
                self.members = m
                self.twins[op[1]] = obj.copy()
        elif verb == "del":
            try:
                del b[op[1]]
            except KeyError:
                if op[1] in self.members:
                    raise core.Violation("%s: %r is not found" % (what, op[1]))
            else:
                if op[1] not in self.members:
                    raise core.Violation("%s: could delete %r" % (what, op[1]))
                del self.members[op[1]]
                self.twins = dict((p, t) for p, t in self.twins.items() if p != op[1] and not p.startswith(op[1] + "/"))
        elif verb == "delwild":
            if "a" not in self.members and "b" not in self.members:
                return False
            del b[op[1]]
            for n in ("a", "b"):
                self.members.pop(n, None)
                self.twins = dict((p, t) for p, t in self.twins.items() if p != n and not p.startswith(n + "/"))
        elif verb == "fill":
            b.fill(DATA[op[1]])
            for t in self.twins.values():
                t.fill(DATA[op[1]])
        elif verb == "memberfill":
            if not self.twins:
                return False
            p = b.allkeys(onlyhist=True)[0]
            b[p].fill(DATA[op[1]])
            self.twins[p].fill(DATA[op[1]])
        elif verb == "copy":
            c = roundtrip(b, op[1])
            if type(c) is not SystematicsBook or not (c == b):
                raise core.Violation("%s: restored as %r" % (what, c))
            self.old, self.oldsnap = b, snap(b)
            self.book = c
        elif verb == "add":
            self.old, self.oldsnap = b, snap(b)
            self.book = b + b
            for p in self.twins:
                self.twins[p] = self.twins[p] + self.twins[p]
        elif verb == "mul":
            self.old, self.oldsnap = b, snap(b)
            self.book = b * 2
            for p in self.twins:
                self.twins[p] = self.twins[p] * 2
        elif verb == "imul":
            self.book *= 0.5
            for p in self.twins:
                t = self.twins[p]
                t *= 0.5
        return True

    def compare(self, what):
        if type(self.book) is not SystematicsBook or self.book.keys() != list(self.members) or sorted(self.book.allkeys(onlyhist=True)) != sorted(self.twins):
            raise core.Violation("%s: %s of %r instead of %r" % (what, type(self.book).__name__, self.book.allkeys(), sorted(self.twins)))
        for p in self.twins:
            if snap(self.book[p]) != snap(self.twins[p]):
                raise core.Violation("%s: %r has %r instead of %r" % (what, p, snap(self.book[p]), snap(self.twins[p])))
        if hasattr(self, "old") and self.old is not self.book and snap(self.old) != self.oldsnap:
            raise core.Violation("%s: the book it was made from changed" % what)


class Check(object):
    id = "C19"
    case_timeout = 600
    assumptions = ["names do not contain wildcard characters", "a view shares attachments with the book it was taken from", "books inside a SystematicsBook are only changed through it",
                   "deleting by wildcard inside the nested books of a SystematicsBook is unspecified (the books in between would not be compatible)"]

    def bounds(self, tier):
        return {"trees": len(TREES), "patterns": len(PATTERNS), "view_operations": len(VIEWOPS), "sample_operations": len(SAMPLEOPS), "systematics_operations": len(SYSTOPS),
                "depth": self.depth(tier)}

    def depth(self, tier):
        return {"view": 3 if tier == "thorough" else 2, "samples": 4 if tier == "thorough" else 3, "syst": 3 if tier == "thorough" else 2}

    def cases(self, tier):
        out = [["view", t, p] for t in range(len(TREES)) for p in range(len(PATTERNS))]
        out += [["viewseq", t, o] for t in SEQTREES for o in range(len(VIEWOPS))]
        out += [["samples", k, o] for k in SAMPLEKINDS for o in range(len(SAMPLEOPS))]
        out += [["syst", i, o] for i in range(len(SYSTINITS)) for o in range(len(SYSTOPS))]
        out += [["ctor", c, None] for c in sorted(CANDIDATES)]
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        kind = case[0]
        depth = self.depth(cx.tier)
        if kind == "view":
            return self.view(case, cx)
        if kind == "ctor":
            return self.ctor(case, cx)
        if kind == "viewseq":
            ops, d = VIEWOPS, depth["view"]

            def new():
                tw = Twins(build(TREES[case[1]], {}))
                held = []
                return (lambda op, what: viewop(tw, held, op, what)), tw.compare, tw.key
            init = []
        elif kind == "samples":
            ops, d = SAMPLEOPS, depth["samples"]

            def new():
                s = Samples(case[1])
                return s.op, s.compare, lambda: tuple(snap(t) for p, t in sorted(s.twins.items()))
            init = []
        else:
            ops, d = SYSTOPS, depth["syst"]

            def new():
                s = Syst()
                return s.op, s.compare, lambda: (tuple(s.members.items()),) + tuple(snap(t) for p, t in sorted(s.twins.items()))
            init = SYSTINITS[case[1]]
        for rest in itertools.product(range(len(ops)), repeat=d - 1):
            hist = [ops[case[2]]] + [ops[i] for i in rest]
            op, compare, key = new()
            for o in init:
                op(o, repr(o))
            for k, o in enumerate(hist):
                what = "%r after %r" % (o, init + hist[:k])
                if not op(o, what):
                    break
                cx.step()
                if k == d - 1 or not any(rest[k:]):
                    compare(what)
            else:
                cx.state((case[:2], key()))
                cx.outcome(key())
            cx.trace()
        cx.sample({"kind": kind, "history": hist})

    def view(self, case, cx):
        tree, pattern = TREES[case[1]], PATTERNS[case[2]]
        tw = Twins(build(tree, {}))
        what = "view(%r) of %r" % (pattern, tree)
        want = tw.matching(pattern)
        cx.trace()
        cx.state(tuple(case))
        try:
            v = tw.book.view(pattern)
        except ValueError:
            if want:
                raise core.Violation(what + ": nothing matched")
            tw.compare(what)
            return
        if not want:
            raise core.Violation("%s: matched %r" % (what, v.allkeys()))
        checkview(v, tw, pattern, what)
        tw.compare(what)
        for d in DATA:
            v.fill(d)
            for t in tw.distinct(want):
                t.fill(d)
            tw.compare(what)
            cx.step()
        for how in ("pickle", "json", "copy", "copyonfill"):
            c = roundtrip(v, how)
            if not (c == v):
                raise core.Violation("%s: %s is not equal" % (what, how))
            c.fill(DATA[0])
            tw.compare(what + " after filling its " + how)
            cx.step()
        cx.outcome((tuple(want), tw.key()))

    def ctor(self, case, cx):
        one = case[1]
        for two in sorted(CANDIDATES):
            for three in ("ok", "book", "none"):
                ms = [one, two, three]
                for k in (1, 2, 3):
                    for how in ("dict", "keywords", "varargs", "fromdicts"):
                        objs = [CANDIDATES[m]() for m in ms[:k]]
                        named = collections.OrderedDict(zip("abc", objs))
                        ok = acceptable([(SIG[m], SYST[m]) for m in ms[:k]])
                        try:
                            if how == "dict":
                                b = SystematicsBook(named)
                            elif how == "keywords":
                                b = SystematicsBook(**named)
                            elif how == "varargs":
                                b = SystematicsBook(*objs)
                            else:
                                b = SystematicsBook.fromdicts(named, {})
                        except ValueError:
                            if ok:
                                raise core.Violation("SystematicsBook (%s) refused %r" % (how, ms[:k]))
                        else:
                            if not ok:
                                raise core.Violation("SystematicsBook (%s) accepted %r" % (how, ms[:k]))
                            if [id(x) for x in b.values()] != list(map(id, objs)):
                                raise core.Violation("SystematicsBook (%s) of %r has something else" % (how, ms[:k]))
                            twins = dict((p, x.copy()) for p, x in b.allitems(onlyhist=True))
                            for d in DATA:
                                b.fill(d)
                                for p in twins:
                                    twins[p].fill(d)
                            if any(snap(b[p]) != snap(twins[p]) for p in twins):
                                raise core.Violation("SystematicsBook (%s) of %r: filled differently" % (how, ms[:k]))
                        cx.step()
                        cx.trace()
                        cx.state((how, tuple(ms[:k])))


CHECK = Check()
