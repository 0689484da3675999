"""C03: fills are additive. Model: a histogram is a multiset of (row, scale); +, +=, *, *= act on multisets.

Explored on the real code, per configuration (axis mix x weight mode):
  order   every permutation of the rows x every split into consecutive fills (x an empty fill in front, at the end or between)
  merge   every assignment of the rows to three histograms x every way (trees of + and +=) of combining them
  cancel  rows with zero and cancelling weights x assignments to two histograms x ways of adding
  scale   every scaling law for every factor
  seq     every sequence of operations up to the depth on two registers
  book    the same operation sequences on two nested books with partly different names"""
import itertools

from mc.ref import *

CONFIGS = [
    ([["bin", "x", 2, 0, 2, "UONL"]], {}),
    ([["bin", "x", 2, 0, 2, "___L"], ["profile", "y"]], {"weight": "w"}),
    ([["groupby", "g"]], {}),
    ([["groupby", "g"], ["bin", "x", 2, 0, 2, "UO_L"], ["profile", "y"]], {"weight": 2.5}),
    ([["groupby", "g"], ["groupbin", "x", 1, 0, "NL"]], {"filter": "x > 0.6"}),
    ([["groupbin", "x", 1, 0, "NL"], ["cut", "y > 1"]], {}),
    ([["split", "x", [0, 1, 3], "UO_H"], ["intbin", "i", 0, 1, "UO"]], {"weight": "w", "filter": "x > 0.6"}),
    ([["groupby", "g"], ["groupbin", "x", 1, 0, "_L"], ["bin", "y", 2, 0, 4, "UONL"], ["profile", "x*y"], ["profile", "y"]], {}),
    ([["profile", "y"]], {}),
    ([], {"weight": "w"}),
    ([["groupby", "g"], ["profile", "y"]], {"filter": "x > 0.6", "weight": "w*k", "defs": {"k": "1 + i"}}),
    ([["cut", "x > 0.6"]], {"filter": "y > 1"}),
    ([["intbin", "i", 0, 1, "__"], ["profile", "x"]], {"filter": "not y > 1", "weight": 0.5}),
    ([["groupbin", "y", 2, 0, "NL"]], {"weight": "w"}),
    ([["groupby", "g"], ["bin", "x", 2, 0, 2, "UO_L"]], {"weight": "w"}),
]
FIELDS = ["x", "y", "i", "g", "w"]
ROWS = [
    {"x": 0.5, "y": 2.0, "i": 0.0, "g": "a", "w": 2.0},
    {"x": 1.5, "y": 0.5, "i": 1.0, "g": "b", "w": 0.5},
    {"x": 0.75, "y": 3.0, "i": 5.0, "g": "a", "w": 1.5},
    {"x": 7.0, "y": 2.5, "i": 0.0, "g": "cc", "w": 3.0},
    {"x": 0.75, "y": 1.0, "i": 1.0, "g": "b", "w": NAN},
]
FACTORS = [2, 0.5, 0, 3, 1, -1.0]


def fill(h, rows):
    h.fill(columns(rows, FIELDS) if rows else {"x": numpy.array([]), "y": numpy.array([]), "i": numpy.array([]), "g": numpy.array([], dtype="U2"), "w": numpy.array([])})


def merge(*refs):
    out = refs[0].copy()
    for r in refs[1:]:
        out.rows = out.rows + r.rows
    return out


def compositions(n):
    for bits in itertools.product([0, 1], repeat=n - 1):
        out, cur = [], 1
        for b in bits:
            if b:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


# ------------------------------------------------------------------ histories on registers A and B
OPS = ["A.fill1", "A.fill23", "B.fill4", "A.fill0", "A+=B", "B+=A", "A=A+B", "B=B+A", "A*=2", "B=B*0.5", "A=3*A", "A+=A", "A=A+A", "A.clear", "B=A.copy"]
QOPS = ["A.fill1", "A.fill23", "B.fill4", "A+=B", "B+=A", "A=A+B", "A*=2", "B=B*0.5", "A+=A", "A.clear"]


def apply(op, regs, rows, fillone, clear):
    """regs: {"A": obj, "B": obj}; works on real objects and models alike."""
    a, b = regs["A"], regs["B"]
    if op == "A.fill1":
        fillone(a, rows[:1])
    elif op == "A.fill23":
        fillone(a, rows[1:3])
    elif op == "B.fill4":
        fillone(b, rows[3:])
    elif op == "A.fill0":
        fillone(a, [])
    elif op == "A+=B":
        a += b
        regs["A"] = a
    elif op == "B+=A":
        b += a
        regs["B"] = b
    elif op == "A=A+B":
        regs["A"] = a + b
    elif op == "B=B+A":
        regs["B"] = b + a
    elif op == "A*=2":
        a *= 2
        regs["A"] = a
    elif op == "B=B*0.5":
        regs["B"] = b * 0.5
    elif op == "A=3*A":
        regs["A"] = 3 * a
    elif op == "A+=A":
        a += a
        regs["A"] = a
    elif op == "A=A+A":
        regs["A"] = a + a
    elif op == "A.clear":
        clear(a)
    elif op == "B=A.copy":
        regs["B"] = a.copy()
    else:
        raise AssertionError(op)


class Model(object):
    """Multiset arithmetic for one histogram."""

    def __init__(self, ref, rows=()):
        self.ref, self.rows = ref, list(rows)

    def __add__(self, other):
        return Model(self.ref, self.rows + other.rows)

    def __iadd__(self, other):
        self.rows = self.rows + other.rows
        return self

    def __mul__(self, c):
        return Model(self.ref, [(r, s * c) for r, s in self.rows])

    __rmul__ = __mul__

    def __imul__(self, c):
        self.rows = [(r, s * c) for r, s in self.rows]
        return self

    def copy(self):
        return Model(self.ref, self.rows)

    def fill(self, rows):
        self.rows = self.rows + [(r, 1) for r in rows]

    def clear(self):
        self.rows = []

    def expected(self):
        return self.ref.with_rows(self.rows).expected()


class BookModel(object):
    """Ordered tree of Models."""

    def __init__(self, tree):
        self.tree = tree            # path -> Model

    def __add__(self, other):
        out = {}
        for n, m in self.tree.items():
            out[n] = m + other.tree[n] if n in other.tree else m.copy()
        for n, m in other.tree.items():
            if n not in out:
                out[n] = m.copy()
        return BookModel(out)

    def __iadd__(self, other):
        for n, m in list(other.tree.items()):
            self.tree[n] = self.tree[n] + m if n in self.tree else m.copy()
        return self

    def __mul__(self, c):
        return BookModel(dict((n, m * c) for n, m in self.tree.items()))

    __rmul__ = __mul__

    def __imul__(self, c):
        self.tree = dict((n, m * c) for n, m in self.tree.items())
        return self

    def copy(self):
        return BookModel(dict((n, m.copy()) for n, m in self.tree.items()))

    def fill(self, rows):
        for m in self.tree.values():
            m.fill(rows)

    def clear(self):
        for m in self.tree.values():
            m.clear()


BOOKS = [
    # (tree of A, tree of B): path -> configuration
    ({"h": 0, "in/k": 3}, {"h": 0, "in/k": 3}),
    ({"h": 1, "in/k": 4, "in/l": 0}, {"in/k": 4, "z": 2, "in/q": 5}),
    ({"h": 2}, {}),
    ({}, {"h": 3, "deep/er/k": 1}),
]


def mkbook(tree):
    b = Book()
    for path, c in tree.items():
        b[path] = Ref(CONFIGS[c][0], **CONFIGS[c][1]).hist()
    return b


class Check(object):
    id = "C03"
    case_timeout = 600
    assumptions = ["additions compare bin contents to a relative tolerance of 1e-9 (floating-point addition is associative only to rounding)",
                   "multiplying by a number scales the sums of weights and of squared weights alike, so that h*2 equals h+h"]

    def depth(self, tier, c):
        return 4 if tier == "thorough" else (4 if c in (3,) else 3)

    def bounds(self, tier):
        return {"configurations": len(CONFIGS), "rows": "4 for order (24 permutations x 8 compositions x 4 placements of an empty fill), 4 into 3 histograms (81) x 14 combination trees for merge" if tier == "quick" else "5 for order and merge",
                "factors": FACTORS, "operations": OPS if tier == "thorough" else QOPS, "depth": "3, and 4 for configuration 3" if tier == "quick" else 4, "books": len(BOOKS)}

    def cases(self, tier):
        n = 5 if tier == "thorough" else 4
        out = []
        for c in range(len(CONFIGS)):
            for first in range(n):
                out.append(["order", c, first])
            for a in range(3):
                for b in range(3):
                    out.append(["merge", c, a, b])
            out.append(["scale", c])
            if "w" in str(CONFIGS[c][1].get("weight")):
                out += [["cancel", c, w] for w in (-1.0, 0.0, 1.0)]
            ops = OPS if tier == "thorough" else QOPS
            for a in ops:
                for b in ops:
                    out.append(["seq", c, a, b])
        for k in range(len(BOOKS)):
            ops = OPS if tier == "thorough" else QOPS
            for a in ops:
                for b in ops:
                    out.append(["book", k, a, b])
        return sorted(out, key=lambda z: core.h64(z))

    def run(self, case, cx):
        getattr(self, case[0])(case, cx)

    def verdict(self, cx, case, h, ref, sub):
        obs = observe(h)
        cx.trace()
        cx.state((case[:2], sub))
        cx.outcome(obshash(obs))
        d = diff(obs, ref.expected())
        if d is not None:
            raise core.Violation("%r %r\nhistory %r\n%s" % (CONFIGS[case[1]] if case[0] != "book" else BOOKS[case[1]], case, sub, d))

    def same(self, cx, case, h, once, sub):
        if sum(s[0].startswith("group") for s in CONFIGS[case[1]][0]) > 1:
            return          # nested groups: which empty ones there are depends on what was filled together (pinned by tests/test_proj.py)
        cx.trace()
        if not (h == once and once == h) or h != once:
            raise core.Violation("%r %r\nhistory %r: the histogram does not compare equal to one filled at once" % (CONFIGS[case[1]], case, sub))

    def cancel(self, case, cx):
        """rows whose weights are zero or cancel: every vector of weights x every assignment to two histograms x every way of adding them"""
        ref = Ref(CONFIGS[case[1]][0], **CONFIGS[case[1]][1])
        for ws in itertools.product((-1.0, 0.0, 1.0), repeat=3):
            rows = [dict(ROWS[0], w=case[2]), dict(ROWS[0], w=ws[0]), dict(ROWS[1], w=ws[1]), dict(ROWS[1], w=ws[2])]
            exp = ref.with_rows([(r, 1) for r in rows])
            once = ref.hist()
            fill(once, rows)
            for side in itertools.product((0, 1), repeat=4):
                for how in range(4):
                    a, b = ref.hist(), ref.hist()
                    for h, n in (a, 0), (b, 1):
                        mine = [r for r, z in zip(rows, side) if z == n]
                        if mine:
                            fill(h, mine)
                    if how == 0:
                        out = a + b
                    elif how == 1:
                        out = b + a
                    elif how == 2:
                        a += b
                        out = a
                    else:
                        fill(a, [r for r, z in zip(rows, side) if z == 1])
                        out = a
                    cx.step()
                    self.verdict(cx, case, out, exp, (ws, side, how))
                    self.same(cx, case, out, once, (ws, side, how))

    def order(self, case, cx):
        ref = Ref(CONFIGS[case[1]][0], **CONFIGS[case[1]][1])
        n = 5 if cx.tier == "thorough" else 4
        rows = ROWS[:n] if n == 5 else ROWS[:3] + ROWS[4:]
        whole = ref.with_rows([(r, 1) for r in rows])
        once = ref.hist()
        fill(once, rows)
        for perm in itertools.permutations(range(n)):
            if perm[0] != case[2]:
                continue
            for comp in compositions(n):
                for empty in [None, 0, 1, len(comp)]:
                    h = ref.hist()
                    i, hist = 0, []
                    for k, c in enumerate(comp):
                        if k == empty:
                            fill(h, [])
                            cx.step()
                            hist.append([])
                        fill(h, [rows[j] for j in perm[i:i + c]])
                        hist.append(list(perm[i:i + c]))
                        cx.step()
                        i += c
                    if empty == len(comp):
                        fill(h, [])
                        cx.step()
                        hist.append([])
                    self.verdict(cx, case, h, whole, hist)
                    self.same(cx, case, h, once, hist)
        cx.sample({"configuration": CONFIGS[case[1]], "fills": hist})

    def merge(self, case, cx):
        ref = Ref(CONFIGS[case[1]][0], **CONFIGS[case[1]][1])
        n = 5 if cx.tier == "thorough" else 4
        rows = ROWS[:n]
        whole = ref.with_rows([(r, 1) for r in rows])
        once = ref.hist()
        fill(once, rows)
        for rest in itertools.product(range(3), repeat=n - 2):
            assign = (case[2], case[3]) + rest
            for k in range(14):
                hs = []
                for t in range(3):
                    h = ref.hist()
                    part = [rows[j] for j in range(n) if assign[j] == t]
                    if part:
                        fill(h, part)
                    hs.append(h)
                a, b, c = hs
                before = [observe(h) for h in hs]
                keep = [0, 1, 2]
                if k == 0: out = (a + b) + c
                elif k == 1: out = a + (b + c)
                elif k == 2: out = (b + a) + c
                elif k == 3: out = c + (b + a)
                elif k == 4: out = (c + a) + b
                elif k == 5: out = (ref.hist() + a) + b + c
                elif k == 6: out = a + ref.hist() + (c + b) + ref.hist()
                elif k == 7:
                    a += b
                    a += c
                    out, keep = a, [1, 2]
                elif k == 8:
                    b += c
                    a += b
                    out, keep = a, [2]
                elif k == 9:
                    out = ref.hist()
                    out += c
                    out += a
                    out += b
                elif k == 10:
                    out = a + b
                    out += c
                elif k == 11:
                    out = c.copy()
                    out += a + b
                elif k == 12:
                    out = a + b
                    out += ref.hist()
                    out = out + c
                else:
                    a += ref.hist()
                    out, keep = c + b + a, [0, 1, 2]
                cx.step(3)
                self.verdict(cx, case, out, whole, [list(assign), k])
                self.same(cx, case, out, once, [list(assign), k])
                for t in keep:
                    if diff(observe(hs[t]), before[t]) is not None:
                        raise core.Violation("%r: combination %d of %r changed operand %d" % (CONFIGS[case[1]], k, assign, t))

    def scale(self, case, cx):
        ref = Ref(CONFIGS[case[1]][0], **CONFIGS[case[1]][1])
        A, B = ROWS[:3], ROWS[2:]

        def new(rows):
            h = ref.hist()
            fill(h, rows)
            return h

        mA, mB = Model(ref), Model(ref)
        mA.fill(A)
        mB.fill(B)
        for c in FACTORS:
            laws = {
                "h*c": (lambda: new(A) * c, mA * c), "c*h": (lambda: c * new(A), mA * c), "np c": (lambda: new(A) * numpy.float32(c), mA * c),
                "np.int c": (lambda: new(A) * numpy.int64(int(c)), mA * int(c)),
                "(a+b)*c": (lambda: (new(A) + new(B)) * c, (mA + mB) * c), "a*c+b*c": (lambda: new(A) * c + new(B) * c, (mA + mB) * c),
                "a + b*c": (lambda: new(A) + new(B) * c, mA + mB * c), "0 hist": (lambda: ref.hist() * c, Model(ref)),
            }
            def inplace():
                h = new(A)
                h *= c
                fill(h, B)
                return h
            def inplace2():
                h = ref.hist()
                h *= c
                fill(h, B)
                h += new(A) * c
                return h
            def refill():
                h = new(A) * c
                fill(h, B)
                return h
            laws["h*=c; fill"] = (inplace, mA * c + mB)
            laws["unfilled*=c; fill; +="] = (inplace2, mB + mA * c)
            laws["h*c; fill"] = (refill, mA * c + mB)
            for name, (f, m) in laws.items():
                cx.step(2)
                self.verdict(cx, case, f(), m, [c, name])

    def seq(self, case, cx):
        _, c, first, second = case
        ref = Ref(CONFIGS[c][0], **CONFIGS[c][1])
        ops = OPS if cx.tier == "thorough" else QOPS
        for tail in itertools.chain(*(itertools.product(ops, repeat=k) for k in range(self.depth(cx.tier, c) - 1))):
            seq = (first, second) + tail
            real = {"A": ref.hist(), "B": ref.hist()}
            model = {"A": Model(ref), "B": Model(ref)}
            for op in seq:
                apply(op, real, ROWS, fill, lambda h: h.clear())
                apply(op, model, ROWS, lambda m, rows: m.fill(rows), lambda m: m.clear())
                cx.step()
            for r in "AB":
                self.verdict(cx, case, real[r], model[r], [seq, r])
        cx.sample({"configuration": CONFIGS[c], "operations": seq})

    def book(self, case, cx):
        _, k, first, second = case
        ops = OPS if cx.tier == "thorough" else QOPS
        deep = 2 if cx.tier == "thorough" else 1
        for tail in itertools.chain(*(itertools.product(ops, repeat=j) for j in range(deep + 1))):
            seq = (first, second) + tail
            real = {"A": mkbook(BOOKS[k][0]), "B": mkbook(BOOKS[k][1])}
            model = dict((r, BookModel(dict((n, Model(Ref(CONFIGS[c][0], **CONFIGS[c][1]))) for n, c in BOOKS[k][i].items()))) for i, r in enumerate("AB"))
            for op in seq:
                apply(op, real, ROWS, fill, lambda b: b.clear())
                apply(op, model, ROWS, lambda m, rows: m.fill(rows), lambda m: m.clear())
                cx.step()
            for r in "AB":
                paths = real[r].keys(recursive=True, onlyhist=True)
                if sorted(paths) != sorted(model[r].tree):
                    raise core.Violation("book %s after %r holds %r, expected %r" % (r, seq, paths, sorted(model[r].tree)))
                for n in paths:
                    self.verdict(cx, case, real[r][n], model[r].tree[n], [seq, r, n])


CHECK = Check()
