"""C15: a book is a path-addressed ordered mapping.

seq    every sequence, up to the depth, of assignments (histograms, empty and populated books, aliases of what is already there), deletions (by
       name, path, wildcard), pop, setdefault, update, failing calls and attachments, from several initial trees and book classes, mirrored on a
       reference tree; after every step every lookup, wildcard, membership test, listing and iteration must describe the reference tree, by
       identity of the stored objects
deep   the same operations explored breadth-first over the distinct reference trees, to a larger depth
trees  for every ordered pair of trees of a bounded family: equality, copies, clearing, + += * *= and compatibility follow the trees"""
import collections
import itertools
import re

from mc.ref import *
from histbook.book import GenericBook, ChannelsBook, SamplesBook, ViewBook
from mc.c10 import snap

PATHS = ["a", "b", "a/b", "a/c", "b/a", "a/b/c", "ab"]
LOOK = PATHS + ["c", "a/d", "a/b/d", "a/b/c/d", "p", "q", "q/r", "a/p", "a/q", "a/q/r", "b/p", "b/q/r", "a/b/p", "a/b/q/r", "", "a/", "/a", "A", "B"]
GLOBS = ["*", "?", "a*", "*b", "a/*", "*/b", "*/*", "?/*", "a/?", "[ab]", "[!a]*", "*/[cr]", "*q*", "zz*", "[a-b]/[b-c]", "a?"]
# operations: (verb, path or pattern, value)
SETS = [("set", p, v) for p in PATHS for v in ("hist", "empty", "full", "alias")]
DELS = [("del", p) for p in PATHS + ["c", "a/d", "a/q"]]
WILD = [("del", p) for p in ("a*", "*/b", "?", "a/*", "*/*", "*", "[ab]/[bpq]")]
MISC = [("pop", "a"), ("pop", "a/b"), ("pop", "c"), ("popdefault", "c"), ("popdefault", "a/b"), ("setdefault", "a"), ("setdefault", "a/b"), ("update", "b"), ("update", "a/c"), ("badvalue", "a"), ("badvalue", "n/n"), ("badkey", 0), ("attach", "a"), ("detach", "a")]
OPS = SETS + DELS + WILD + MISC
FEW = [("set", "a", "hist"), ("set", "a", "empty"), ("set", "b", "full"), ("set", "a/b", "hist"), ("set", "a/b/c", "hist"), ("set", "b/a", "alias"), ("set", "a/c", "full"), ("set", "ab", "alias"), ("del", "a"), ("del", "a/b"), ("del", "b"), ("del", "c"), ("del", "a*"), ("del", "*/b"), ("del", "?"), ("pop", "a/b"), ("setdefault", "a"), ("update", "b"), ("badvalue", "a")]
INITS = [[], [("set", "a", "hist"), ("set", "b", "full")], [("set", "a/b/c", "hist"), ("set", "b", "hist"), ("set", "a/c", "hist")], [("set", "b", "full"), ("set", "a", "alias"), ("set", "ab", "empty")]]


def glob(pattern):
    out, i = "", 0
    while i < len(pattern):
        c = pattern[i]
        i += 1
        if c == "*":
            out += "(?:.|\n)*"
        elif c == "?":
            out += "(?:.|\n)"
        elif c == "[":
            j = pattern.index("]", i)
            body = pattern[i:j]
            i = j + 1
            out += "[" + ("^" + body[1:] if body.startswith("!") else body) + "]"
        else:
            out += re.escape(c)
    r = re.compile("(?:" + out + r")\Z")
    return lambda s: r.match(s) is not None


COMPILED = dict((g, glob(g)) for g in set(GLOBS) | set(w[1] for w in WILD))


class Node(object):
    """A book of the reference tree; real is the book object once it is known."""

    def __init__(self, real=None):
        self.kids = []            # [name, Node or Hist] in order
        self.real = real
        self.attachment = {}

    def find(self, name):
        for k in self.kids:
            if k[0] == name:
                return k[1]
        return None

    def get(self, path):
        x = self
        for n in path.split("/"):
            if not isinstance(x, Node):
                return None
            x = x.find(n)
            if x is None:
                return None
        return x

    def put(self, path, value):
        names = path.split("/")
        x = self
        # refuse first
        for n in names[:-1]:
            x = x.find(n)
            if x is None:
                break
            if not isinstance(x, Node):
                return False
        x = self
        for n in names[:-1]:
            y = x.find(n)
            if y is None:
                y = Node()
                x.kids.append([n, y])
            x = y
        for k in x.kids:
            if k[0] == names[-1]:
                k[1] = value
                break
        else:
            x.kids.append([names[-1], value])
        return True

    def remove(self, path):
        names = path.split("/")
        x = self.get("/".join(names[:-1])) if len(names) > 1 else self
        if not isinstance(x, Node) or x.find(names[-1]) is None:
            return False
        x.kids = [k for k in x.kids if k[0] != names[-1]]
        return True

    def walk(self, recursive=True, onlyhist=False, path=""):
        for n, x in self.kids:
            if not onlyhist or not isinstance(x, Node):
                yield path + n, x
            if recursive and isinstance(x, Node):
                for y in x.walk(True, onlyhist, path + n + "/"):
                    yield y

    def contains(self, other):
        return self is other or any(x is other or (isinstance(x, Node) and x.contains(other)) for n, x in self.kids)

    def shape(self):
        seen = {}

        def rec(x):
            if id(x) in seen:
                return "=%d" % seen[id(x)]
            seen[id(x)] = len(seen)
            if isinstance(x, Node):
                return "{" + ",".join(n + ":" + rec(y) for n, y in x.kids) + "}"
            return "h"
        return rec(self)


def same(real, node):
    """Is the real object the one the reference tree has there (learning the identity of books it made by itself)?"""
    if isinstance(node, Node):
        if node.real is None:
            if type(real) is not Book:
                return False
            node.real = real
        return node.real is real
    return node is real


class World(object):
    def __init__(self, cls):
        self.book = cls()
        self.tree = Node(self.book)
        self.n = 0

    def hist(self):
        self.n += 1
        h = Hist(histbook.axis.bin("x", 2, 0, 2))
        h.fill(x=[0.5] * self.n)
        return h

    def value(self, kind):
        if kind == "hist":
            h = self.hist()
            return h, h
        if kind == "empty":
            b = Book()
            return b, Node(b)
        if kind == "full":
            p, r = self.hist(), self.hist()
            c = ChannelsBook({"r": r})
            b = Book()
            b["p"] = p
            b["q"] = c
            n, m = Node(b), Node(c)
            m.kids = [["r", r]]
            n.kids = [["p", p], ["q", m]]
            return b, n
        if kind == "alias":
            node = self.tree.find("b")
            if node is None:
                node = self.tree.find("a")
            if node is None:
                return None
            if isinstance(node, Node):
                return self.book[[n for n, x in self.tree.kids if x is node][0]], node
            return node, node

    def op(self, op):
        """Applies one operation to both; raises Violation when the outcome (not yet the state) differs."""
        verb, arg = op[0], op[1]
        b, t = self.book, self.tree

        def real(f, *a):
            try:
                return None, f(*a)
            except (KeyError, TypeError) as err:
                return type(err).__name__, None

        if verb in ("set", "update"):
            v = self.value(op[2] if verb == "set" else "hist")
            if v is None:
                return False
            obj, node = v
            if isinstance(node, Node):
                # a book must not end up in itself
                into = arg.split("/")
                for i in range(len(into)):
                    up = t if i == 0 else t.get("/".join(into[:i]))
                    if isinstance(up, Node) and node.contains(up):
                        return False
            want = None if t.put(arg, node) else "KeyError"
            got, _ = real(b.__setitem__, arg, obj) if verb == "set" else real(b.update, {arg: obj})
        elif verb == "del" and arg in COMPILED:
            match = COMPILED[arg]
            todo = [n for n, x in t.walk() if match(n)]
            if not todo:
                return False            # unspecified
            for n in todo:
                t.remove(n)
            want = None
            got, _ = real(b.__delitem__, arg)
        elif verb == "del":
            want = None if t.remove(arg) else "KeyError"
            got, _ = real(b.__delitem__, arg)
        elif verb in ("pop", "popdefault"):
            x = t.get(arg)
            want = None if x is not None else "KeyError"
            if x is not None:
                t.remove(arg)
            if verb == "pop":
                got, v = real(b.pop, arg)
            else:
                d = object()
                got, v = real(b.pop, arg, d)
                if want is not None:
                    want = None
                    if v is not d:
                        raise core.Violation("pop(%r, default) returned %r" % (arg, v))
            if want is None and x is not None and not same(v, x):
                raise core.Violation("pop(%r) returned something else: %r" % (arg, v))
        elif verb == "setdefault":
            x = t.get(arg)
            h = self.hist()
            want = None
            if x is None:
                want = None if t.put(arg, h) else "KeyError"
                x = h
            got, v = real(b.setdefault, arg, h)
            if want is None and got is None and not same(v, x):
                raise core.Violation("setdefault(%r) returned something else: %r" % (arg, v))
        elif verb == "badvalue":
            want = "TypeError"
            got, _ = real(b.__setitem__, arg, 3.14)
        elif verb == "badkey":
            want = "TypeError"
            got = set(real(f, arg)[0] for f in (b.__getitem__, b.__delitem__, lambda k: b.__setitem__(k, self.hist())))
            got = got.pop() if len(got) == 1 else repr(sorted(map(str, got)))
        elif verb == "attach":
            t.attachment[arg] = t.attachment.get(arg, 0) + 1
            want = None
            got, v = real(b.attach, arg, t.attachment[arg])
            if v is not b:
                raise core.Violation("attach does not return the book")
        elif verb == "detach":
            want = None if arg in t.attachment else "KeyError"
            t.attachment.pop(arg, None)
            got, v = real(b.detach, arg)
        if got != want:
            raise core.Violation("%r: expected %s, got %s" % (op, want or "success", got or "success"))
        return True

    def check(self, full=True):
        b, t = self.book, self.tree

        def compare(what, got, want):
            if not isinstance(got, list):
                raise core.Violation("%s is a %r" % (what, type(got)))
            if len(got) != len(want) or any(not ((g == w) if isinstance(w, str) else same(g, w)) for g, w in zip(got, want)):
                raise core.Violation("%s: %r instead of %r" % (what, got, [w if isinstance(w, str) else type(w) for w in want]))

        def node(b, t):
            if len(b) != len(t.kids):
                raise core.Violation("len is %r instead of %r" % (len(b), len(t.kids)))
            for rec in (False, True):
                for only in (False, True):
                    want = list(t.walk(rec, only))
                    ks, vs = [n for n, x in want], [x for n, x in want]
                    compare("keys(%r, %r)" % (rec, only), b.keys(recursive=rec, onlyhist=only), ks)
                    compare("values(%r, %r)" % (rec, only), b.values(recursive=rec, onlyhist=only), vs)
                    items = b.items(recursive=rec, onlyhist=only)
                    compare("items(%r, %r)" % (rec, only), [n for n, x in items], ks)
                    compare("items(%r, %r)" % (rec, only), [x for n, x in items], vs)
                    if full:
                        compare("iterkeys", list(b.iterkeys(recursive=rec, onlyhist=only)), ks)
                        compare("itervalues", list(b.itervalues(recursive=rec, onlyhist=only)), vs)
                        compare("iteritems", [n for n, x in b.iteritems(recursive=rec, onlyhist=only)], ks)
                    if rec and full:
                        compare("allkeys", b.allkeys(onlyhist=only), ks)
                        compare("allvalues", b.allvalues(onlyhist=only), vs)
                        compare("allitems", [n for n, x in b.allitems(onlyhist=only)], ks)
            if full:
                compare("keys()", b.keys(), [n for n, x in t.kids])
                compare("values()", b.values(), [x for n, x in t.kids])
                compare("items()", [x for n, x in b.items()], [x for n, x in t.kids])
                compare("allkeys()", b.allkeys(), [n for n, x in t.walk()])
                compare("allvalues()", b.allvalues(), [x for n, x in t.walk()])
                compare("iter", [n for n, x in b], [n for n, x in t.walk(True, True)])
                compare("iter", [x for n, x in b], [x for n, x in t.walk(True, True)])
        node(b, t)
        for n, x in t.walk():
            if isinstance(x, Node):
                node(b[n], x)
        for p in LOOK:
            x = t.get(p)
            try:
                got = b[p]
            except KeyError:
                if x is not None:
                    raise core.Violation("%r is not found" % p)
            else:
                if x is None:
                    raise core.Violation("%r is found: %r" % (p, got))
                if not same(got, x):
                    raise core.Violation("%r is something else: %r" % (p, got))
            if (p in b) != (x is not None):
                raise core.Violation("%r in book is %r" % (p, p in b))
        for g in (GLOBS if full else GLOBS[:6]):
            want = [x for n, x in t.walk() if COMPILED[g](n)]
            compare(repr(g), b[g], want)
            if (g in b) != (len(want) != 0):
                raise core.Violation("%r in book is %r" % (g, g in b))
        if b.attachment != t.attachment or any(not b.has(k) or b.get(k) != v or b.get(k, None) != v for k, v in t.attachment.items()) or b.has("zz") or b.get("zz", 7) != 7:
            raise core.Violation("attachment is %r instead of %r" % (b.attachment, t.attachment))


CLASSES = {"Book": Book, "GenericBook": GenericBook, "ChannelsBook": ChannelsBook, "ViewBook": ViewBook}

# ---- trees: [name, spec] lists; leaf specs: small int k = histogram with k entries on binning k % 2 ("g" = group histogram)
TREES = [
    [],
    [["a", 1]],
    [["a", 3]],
    [["a", 2]],
    [["b", 1]],
    [["a", 1], ["b", 2]],
    [["b", 2], ["a", 1]],
    [["a", 0]],
    [["s", []]],
    [["s", [["a", 1]]]],
    [["s", [["a", 3], ["b", 2]]]],
    [["s", [["a", 1], ["t", [["c", 4]]]]], ["a", 2]],
    [["s", [["t", [["c", 2], ["d", 1]]]]]],
    [["s", ["Channels", ["a", 1]]]],
    [["s", ["Channels", ["a", 5], ["b", 1]]], ["b", 1]],
    [["s", 1]],
    [["s", [["t", 2]]], ["b", 3]],
]


def build(spec, cls=None):
    if isinstance(spec, int):
        h = Hist(histbook.axis.bin("x", 2 + spec % 2, 0, 2))
        if spec:
            h.fill(x=[0.5] * spec)
        return h
    cls = cls or Book
    if spec and spec[0] == "Channels":
        cls, spec = ChannelsBook, spec[1:]
    b = cls()
    for n, x in spec:
        b[n] = build(x)
    return b


def strip(spec):
    if isinstance(spec, int):
        return "Hist", spec
    if spec and spec[0] == "Channels":
        return "ChannelsBook", spec[1:]
    return "Book", spec


def refadd(one, two):
    """What one + two contains, or None if it is refused."""
    (k1, a), (k2, b) = strip(one), strip(two)
    if k1 == "Hist" and k2 == "Hist":
        return (a, b) if a % 2 == b % 2 else None
    if k1 == "Hist" or k2 == "Hist":
        return None
    out = []
    for n, x in a:
        y = dict((p, q) for p, q in b).get(n)
        if y is not None:
            z = refadd(x, y)
            if z is None:
                return None
            out.append([n, z])
        else:
            out.append([n, x])
    names = [n for n, x in a]
    out += [[n, x] for n, x in b if n not in names]
    return [k1] + out


def counts(x):
    """Real or reference -> the nested (name, number of entries)."""
    if isinstance(x, Hist):
        return (x.axis[0].numbins, float(sum(x[:])))
    if isinstance(x, GenericBook):
        return [[n, counts(y)] for n, y in x.items()]
    if isinstance(x, tuple):
        return (2 + x[0] % 2, float(x[0] + x[1]))
    if isinstance(x, int):
        return (2 + x % 2, float(x))
    if x and isinstance(x[0], str):
        x = x[1:]
    return [[n, counts(y)] for n, y in x]


def scaled(c, k):
    return (c[0], c[1] * k) if isinstance(c, tuple) else [[n, scaled(x, k)] for n, x in c]


def refcompatible(one, two):
    (k1, a), (k2, b) = strip(one), strip(two)
    if (k1 == "Hist") != (k2 == "Hist"):
        return False
    if k1 == "Hist":
        return a % 2 == b % 2
    return sorted(n for n, x in a) == sorted(n for n, x in b) and all(refcompatible(x, dict(map(tuple, b))[n]) for n, x in a)


def samekinds(one, two):
    """Books of the same class at the same places."""
    (k1, a), (k2, b) = strip(one), strip(two)
    if k1 != k2 or k1 == "Hist":
        return k1 == k2
    b = dict(map(tuple, b))
    return all(samekinds(x, b[n]) for n, x in a if n in b)


def kinds(x):
    if isinstance(x, Hist):
        return "Hist"
    return (type(x).__name__, [[n, kinds(y)] for n, y in x.items()])


def sorteddeep(spec):
    k, s = strip(spec)
    return (k, s) if k == "Hist" else (k, sorted((n, sorteddeep(x)) for n, x in s))


class Check(object):
    id = "C15"
    case_timeout = 600
    assumptions = ["names do not contain wildcard characters", "a book is never put inside itself", "deleting by a wildcard that matches nothing is unspecified", "whether books that differ only in order are equal is unspecified"]

    def bounds(self, tier):
        return {"operations": len(OPS), "reduced_operations": len(FEW), "paths": PATHS, "lookups": LOOK, "wildcards": GLOBS, "initial_trees": len(INITS), "classes": sorted(CLASSES),
                "depth_all_sequences": 3 if tier == "thorough" else 2, "depth_reduced": 4 if tier == "thorough" else 3, "depth_deduplicated": 5 if tier == "thorough" else 4, "tree_pairs": len(TREES) ** 2}

    def cases(self, tier):
        out = [["seq", c, i, [o]] for c in sorted(CLASSES) for i in range(len(INITS)) for o in range(len(OPS))]
        out += [["few", c, i, [o]] for c in (["Book", "ChannelsBook"] if tier == "quick" else sorted(CLASSES)) for i in range(len(INITS)) for o in range(len(FEW))]
        out += [["deep", "Book", 0, [o]] for o in range(len(FEW))]
        out += [["trees", i, None, None] for i in range(len(TREES))]
        out += [["ctor", i, None, None] for i in range(len(TREES))]
        return sorted(out, key=core.h64)

    def run(self, case, cx):
        kind = case[0]
        if kind == "trees":
            return self.trees(case[1], cx)
        if kind == "ctor":
            return self.ctor(case[1], cx)
        cls, init, first = CLASSES[case[1]], INITS[case[2]], case[3]
        ops = OPS if kind == "seq" else FEW
        if kind == "deep":
            return self.deep(cls, init, ops[first[0]], 5 if cx.tier == "thorough" else 4, cx)
        depth = (2 if kind == "seq" else 3) + (cx.tier == "thorough")
        for rest in itertools.product(range(len(ops)), repeat=depth - 1):
            hist = [ops[i] for i in first + list(rest)]
            w = World(cls)
            for op in init:
                w.op(op)
            w.check(True)
            for k, op in enumerate(hist):
                try:
                    if not w.op(op):
                        break
                    # shared prefixes are checked once
                    if k == depth - 1 or not any(rest[k:]):
                        w.check(True)
                except core.Violation as err:
                    raise core.Violation("%s after %r, at %r: %s" % (case[1], init + hist[:k], op, err))
                cx.step()
                cx.state((case[1], w.tree.shape()))
                cx.outcome(tuple(w.book.allkeys()))
            cx.trace()
        cx.sample({"class": case[1], "init": init, "history": hist})

    def deep(self, cls, init, first, depth, cx):
        front, seen = [[first]], set()
        for d in range(1, depth + 1):
            nxt = []
            for hist in front:
                w = World(cls)
                ok = True
                for k, op in enumerate(init + hist):
                    try:
                        ok = w.op(op) and ok
                    except core.Violation as err:
                        raise core.Violation("%s after %r, at %r: %s" % (cls.__name__, (init + hist)[:k], op, err))
                if not ok:
                    continue
                key = w.tree.shape()
                try:
                    w.check(key not in seen)
                except core.Violation as err:
                    raise core.Violation("%s after %r: %s" % (cls.__name__, init + hist, err))
                cx.step()
                cx.trace()
                if key in seen:
                    continue
                seen.add(key)
                cx.state((cls.__name__, key))
                nxt += [hist + [op] for op in FEW]
            front = nxt if d < depth else []

    def ctor(self, i, cx):
        """All ways of making the same book agree."""
        spec = strip(TREES[i])[1]
        want = counts(TREES[i])
        hs = collections.OrderedDict((n, build(x)) for n, x in spec)
        made = [("dict", Book(hs)), ("keywords", Book(**hs)), ("fromdicts", Book.fromdicts(hs, {})), ("dict and keywords", Book(collections.OrderedDict(list(hs.items())[:1]), **dict(list(hs.items())[1:])))]
        for what, b in made:
            cx.step()
            cx.trace()
            if counts(b) != want or any(b[n] is not hs[n] for n in hs):
                raise core.Violation("Book from %s: %r instead of %r" % (what, counts(b), want))
            if not (b == made[0][1]) or b != made[0][1]:
                raise core.Violation("Book from %s is not equal" % what)
        # unnamed
        b = Book(*hs.values()) if hs else Book()
        if b.keys() != [str(k) for k in range(len(hs))] or any(x is not y for x, y in zip(b.values(), hs.values())):
            raise core.Violation("unnamed: %r" % b.keys())
        # recreate from the paths of the histograms
        orig = build(TREES[i])
        c = Book()
        for n, x in orig:
            c[n] = x
        if c.allkeys(onlyhist=True) != orig.allkeys(onlyhist=True) or [id(x) for x in c.allvalues(onlyhist=True)] != [id(x) for x in orig.allvalues(onlyhist=True)]:
            raise core.Violation("rebuilt from paths: %r instead of %r" % (c.allkeys(), orig.allkeys()))
        s = SamplesBook(["u", "v"], hs)
        if s.keys() != ["u", "v"] or any(counts(s[n]) != want for n in ("u", "v")):
            raise core.Violation("samples: %r" % counts(s))
        cx.state(("ctor", i))

    def trees(self, i, cx):
        for j in range(len(TREES)):
            for cls in (Book, ChannelsBook):
                one, two = build(TREES[i], cls), build(TREES[j], cls)
                s1, s2 = snap(one), snap(two)
                what = "%s %r and %r" % (cls.__name__, TREES[i], TREES[j])
                cx.step()
                cx.trace()
                cx.state(("trees", i, j, cls.__name__))
                if i == j and (not (one == two) or one != two):
                    raise core.Violation(what + " are not equal")
                if sorteddeep(TREES[i]) != sorteddeep(TREES[j]) and (one == two or not (one != two)):
                    raise core.Violation(what + " are equal")
                if cls is ChannelsBook and (one == build(TREES[i], Book)):
                    raise core.Violation(what + ": equal to a book of another class")
                if one.compatible(two) is not refcompatible(TREES[i], TREES[j]):
                    raise core.Violation(what + ": compatible is %r" % one.compatible(two))
                if i != j or cls is Book:
                    # a book of the two, and a book of the two and one of them again
                    for names, members in (("lr", (one, two)), ("lmr", (one, two, one)), ("lmr", (one, one, two))):
                        pair = Book()
                        for n, x in zip(names, members):
                            pair[n] = x
                        deep = Book()
                        deep["q"] = pair
                        try:
                            pair.assertcompatible()
                            got = True
                        except ValueError:
                            got = False
                        if got is not (samekinds(TREES[i], TREES[j]) and refcompatible(TREES[i], TREES[j])):
                            raise core.Violation(what + ": assertcompatible of a book of them %s" % ("passes" if got else "raises"))
                        try:
                            deep.assertcompatible()
                        except ValueError:
                            raise core.Violation(what + ": assertcompatible of a book with one entry raises")
                for name in ("copy", "copyonfill", "cleared"):
                    c = getattr(one, name)()
                    if kinds(c) != kinds(one) or counts(c) != (counts(one) if name != "cleared" else scaled(counts(one), 0)) or (name != "cleared" and not c == one):
                        raise core.Violation("%s: %s is %r" % (what, name, counts(c)))
                    if any(x is y for x in c.allvalues() for y in one.allvalues()):
                        raise core.Violation("%s: %s shares members" % (what, name))
                if counts(one * 3) != scaled(counts(one), 3) or counts(3 * one) != scaled(counts(one), 3) or kinds(one * 3) != kinds(one):
                    raise core.Violation(what + ": one * 3 is %r" % counts(one * 3))
                want = refadd(TREES[i], TREES[j])
                try:
                    got = one + two
                except (TypeError, ValueError):
                    got = None
                if (want is None) != (got is None):
                    raise core.Violation("%s: + is %r instead of %r" % (what, got, want))
                if want is not None and (counts(got) != counts(want) or type(got) is not cls):
                    raise core.Violation("%s: + is %r instead of %r" % (what, counts(got), counts(want)))
                if snap(one) != s1 or snap(two) != s2:
                    raise core.Violation(what + ": changed by +, * or copy")
                ids = [(n, id(x)) for n, x in one.allitems()]
                acc = one
                try:
                    acc += two
                except (TypeError, ValueError):
                    if want is not None or snap(one) != s1 or snap(two) != s2:
                        raise core.Violation("%s: += raised and left %r" % (what, counts(one)))
                else:
                    if acc is not one or want is None or counts(one) != counts(want) or snap(two) != s2 or type(one) is not cls:
                        raise core.Violation("%s: += is %r instead of %r" % (what, counts(one), want and counts(want)))
                    if dict(ids) != dict((n, id(one[n])) for n, _ in ids):
                        raise core.Violation("%s: += replaced members" % what)
                before = counts(one)
                acc *= 0.5
                if acc is not one or counts(one) != scaled(before, 0.5):
                    raise core.Violation("%s: *= is %r" % (what, counts(one)))
                one.clear()
                if counts(one) != scaled(before, 0) or snap(two) != s2:
                    raise core.Violation("%s: clear leaves %r" % (what, counts(one)))
                for bad in (1, Hist(), {"a": 1}, None):
                    for f in (lambda: one + bad, lambda: one.__iadd__(bad)):
                        try:
                            f()
                        except TypeError:
                            pass
                        else:
                            raise core.Violation("%s: adding %r is accepted" % (what, bad))


CHECK = Check()
