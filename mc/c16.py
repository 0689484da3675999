"""C16: every schedule of two threads, one preempted before each of its source lines, on the real library."""
import itertools
import pickle
import sys

from mc.ref import *
from mc import sched
from histbook import SamplesBook

ROWS = {
    0: [{"g": "a", "x": 0.5, "p": True, "y": 1.0, "w": 2.0}, {"g": "b", "x": 5.0, "p": False, "y": 2.0, "w": 1.0}, {"g": "a", "x": NAN, "p": True, "y": 3.0, "w": 0.5}],
    1: [{"g": "b", "x": 1.5, "p": True, "y": -1.0, "w": 3.0}, {"g": "c", "x": 0.5, "p": False, "y": 4.0, "w": 1.5}],
    2: [{"g": "a", "x": 1.0, "p": False, "y": 0.5, "w": 1.0}, {"g": "c", "x": -1.0, "p": True, "y": 2.5, "w": 0.25}],
}
FIELDS = ["g", "x", "p", "y", "w"]
DATA = dict((k, columns(v, FIELDS)) for k, v in ROWS.items())


def data(i, o):
    return dict([(f, DATA[i][f].copy()) for f in FIELDS] + [("source", numpy.array(["one"] * len(ROWS[i])))])


def axes(size):
    if size == "small":
        return [bin("x", 2, 0, 2)]
    return [groupby("g"), bin("x*x", 2, 0, 2), cut("p or x > 0"), profile("y")]


def opts(size):
    return {} if size == "small" else {"weight": "w*k", "filter": "x < 3", "defs": {"k": "w + 1"}}


def base(size, ax=None):
    h = Hist(*(ax or axes(size)), attachment={"n": 1}, **opts(size))
    h.fill(data(2, h))
    return h


def xname(size):
    return "x" if size == "small" else "x*x"


# how the two threads' objects are related: size -> (object 0, object 1, shared axes)
def same_axes(size):
    ax = axes(size)
    return Hist(*ax), Hist(*ax, **opts(size)), ax


def filled_same_axes(size):
    ax = axes(size)
    return base(size, ax), base(size, ax), ax


def derived(f):
    def make(size):
        ax = axes(size)
        h = base(size, ax)
        return h, f(h, size), ax
    return make


def derived_unfilled(f):
    def make(size):
        ax = axes(size)
        h = Hist(*ax, **opts(size))
        return h, f(h, size), ax
    return make


def siblings(f):
    def make(size):
        ax = axes(size)
        h = base(size, ax)
        return f(h, size), f(h, size), ax
    return make


def books(f):
    def make(size):
        ax = axes(size)
        b = Book(a=Hist(*ax), b=Hist(*ax, **opts(size)))
        return b, f(b, ax, size), ax
    return make


def samples(size):
    ax = axes(size)
    s = SamplesBook(["s", "t"], Book(a=Hist(*ax), b=Hist(*ax, **opts(size))))
    return s["s"], s["t"], ax


RELATIONS = {
    "same axes": same_axes,
    "same axes, filled": filled_same_axes,
    "copy": derived(lambda h, s: h.copy()),
    "copy of unfilled": derived_unfilled(lambda h, s: h.copy()),
    "copyonfill": derived(lambda h, s: h.copyonfill()),
    "two copyonfill": siblings(lambda h, s: h.copyonfill()),
    "project": derived(lambda h, s: h.project(xname(s))),
    "two projections": siblings(lambda h, s: h.project(xname(s))),
    "select": derived(lambda h, s: h.select(xname(s) + " < 1")),
    "rebin": derived(lambda h, s: h.rebin(xname(s), [0, 2])),
    "scaled": derived(lambda h, s: h * 2),
    "sum": derived(lambda h, s: h + h),
    "cleared": derived(lambda h, s: h.cleared()),
    "weighted": derived(lambda h, s: h.weight("w + 1")),
    "pickled": derived(lambda h, s: pickle.loads(pickle.dumps(h))),
    "json": derived(lambda h, s: Hist.fromjson(h.tojson())),
    "axes of the other": derived(lambda h, s: Hist(*h.axis)),
    "grouped": derived(lambda h, s: Hist.group(one=h, two=h)),
    "books, same axes": books(lambda b, ax, s: Book(c=Hist(*ax), d=Hist(*ax, **opts(s)))),
    "book copy": books(lambda b, ax, s: b.copy()),
    "book copyonfill": books(lambda b, ax, s: b.copyonfill()),
    "book and another": books(lambda b, ax, s: Hist(*ax)),
    "samples": samples,
}


def first(o):
    while not isinstance(o, Hist):
        o = next(iter(o.values()))
    return o


def read(o):
    return repr(o.tojson())


# operations of a thread on its object o: (o, thread number, shared axes, size) -> result (read after both threads ended)
def op_fill(o, i, ax, s):
    o.fill(data(i, o))


def op_fill2(o, i, ax, s):
    o.fill(data(i, o))
    o.fill(data(2, o))


def op_copyfill(o, i, ax, s):
    c = o.copy()
    c.fill(data(i, o))
    return c


def op_lazyfill(o, i, ax, s):
    c = o.copyonfill()
    c.fill(data(i, o))
    return c


def op_scale(o, i, ax, s):
    h = first(o)
    h *= 3
    return h * 2


def op_add(o, i, ax, s):
    c = o + o
    if isinstance(o, Hist):
        o += c
    return c


def op_project(o, i, ax, s):
    h = first(o)
    return h.project(list(h.axis)[-2 if s == "rich" and len(h.axis) > 1 else 0])


def op_select(o, i, ax, s):
    h = first(o)
    return h.select(xname(s) + " < 0") if any(isinstance(x, (histbook.axis.bin, histbook.axis.split)) for x in h.axis) else h.copy()


def op_table(o, i, ax, s):
    h = first(o)
    return repr(h.table(recarray=False)) if not isinstance(h.table(recarray=False), dict) else repr(sorted(h.table(recarray=False).items(), key=repr))


def op_construct(o, i, ax, s):
    h = Hist(*ax, **({"weight": "w"} if i else {"defs": {"x": "y"}}))
    h.fill(data(i, h))
    return h


def op_constructfrom(o, i, ax, s):
    h = Hist(*first(o).axis, filter="x > 0")
    h.fill(data(i, h))
    return h


def op_json(o, i, ax, s):
    return type(o).fromjson(o.tojson())


def op_pickle(o, i, ax, s):
    return pickle.loads(pickle.dumps(o))


def op_plot(o, i, ax, s):
    h = first(o)
    return repr(h.step([x for x in h.axis if isinstance(x, histbook.axis.FixedAxis)][0]).vegalite())


def op_compare(o, i, ax, s):
    return repr((o == o.copy(), repr(first(o).axis), first(o).fields))


OPS = dict((n[3:], f) for n, f in list(globals().items()) if n.startswith("op_"))
QUICK = [("fill", n) for n in sorted(OPS) if n not in ("pickle", "json")] + [("construct", "construct"), ("constructfrom", "constructfrom"), ("copyfill", "lazyfill"), ("lazyfill", "lazyfill"), ("scale", "lazyfill"), ("project", "scale"), ("select", "constructfrom")]


RICH = ("same axes", "copyonfill", "project", "books, same axes", "book copyonfill", "axes of the other")


def finish(r):
    return r if r is None or isinstance(r, str) else read(r)


class Check(object):
    id = "C16"
    case_timeout = 850
    chunk = 1
    assumptions = ["a thread can be preempted before any source line of the library, not inside one line (or inside NumPy)", "the two threads use different histograms or books; two threads using the same histogram are not considered",
                   "a schedule that would block one thread on a lock held by the other is let run freely and its result checked all the same"]

    def bounds(self, tier):
        return {"threads": 2, "relations": sorted(RELATIONS), "operations": sorted(OPS),
                "schedules": "one preemption before every executed source line (its first %s executions), either thread first%s" % (("1", "") if tier == "quick" else ("40", "; two preemptions before the first execution of every pair of source lines for the small histograms"))}

    def cases(self, tier):
        out = []
        rels = sorted(RELATIONS)
        if tier == "quick":
            for ri, r in enumerate(rels):
                for pi, (a, b) in enumerate(QUICK):
                    # the richer histogram for every relation with fill/fill, constructions only where axes are what is shared
                    if "construct" in a and r not in ("same axes", "axes of the other"):
                        continue
                    if (a, b) == ("fill", "fill"):
                        out.append([r, a, b, "rich" if r in RICH else "small", 1])
                    elif (ri + pi) % 3 == 0:
                        out.append([r, a, b, "small", 1])
        else:
            for r in rels:
                for a, b in itertools.combinations_with_replacement(sorted(OPS), 2):
                    out.append([r, a, b, "small", 1])
                for a, b in QUICK:
                    out.append([r, a, b, "rich", 1])
                out.append([r, "fill", "fill", "small", 2])
                out.append([r, "lazyfill", "fill", "small", 2])
                out.append([r, "constructfrom", "construct", "small", 2])
        return out

    def run(self, case, cx):
        rel, a, b, size, bound = case
        names = (a, b)
        limit = 1 if cx.tier == "quick" else 40

        def setup():
            o = RELATIONS[rel](size)
            ops = [(lambda i: lambda: OPS[names[i]](o[i], i, o[2], size))(i) for i in (0, 1)]
            return o, ops

        # what each thread gets alone, and the source lines it executes
        alone, after, sites = [], [], []
        for i in (0, 1):
            o, ops = setup()
            try:
                r = finish(ops[i]())
            except core.Violation:
                raise
            except Exception as err:
                raise core.Violation("%r: thread %d alone raises\n%s" % (case, i, core.brief()))
            alone.append(r)
            after.append(read(o[i]))
            sites.append(self.sites(setup, i))
        cx.state((case, "alone"))
        cx.sample({"relation": rel, "threads": names, "lines": [len(s) for s in sites], "result alone": [str(x)[:200] for x in alone]})

        def one(firstthread, schedule):
            o, ops = setup()
            run = sched.Run(ops, firstthread, schedule).run()
            cx.step(run.taken + 1)
            cx.trace()
            cx.count("schedules")
            if run.blocked:
                cx.count("blocked schedules")
            for i in (0, 1):
                what = None
                if run.result[i][0] != "ok":
                    what = "raised\n" + run.result[i][1]
                else:
                    got = finish(run.result[i][1])
                    if got != alone[i]:
                        what = "returned %s\nalone it returns %s" % (str(got)[:1500], str(alone[i])[:1500])
                    else:
                        now = read(o[i])
                        if now != after[i]:
                            what = "left its histogram as %s\nalone it leaves %s" % (now[:1500], after[i][:1500])
                if what is not None:
                    raise core.Violation("%s (%s): thread 0 does %s, thread 1 does %s; thread %d starts, preempted at %r before %r\nthread %d %s" % (rel, size, a, b, firstthread, schedule, run.where, i, what))
            cx.state((case, firstthread, tuple(run.where)))
            cx.outcome((rel, names, alone))

        def points(i):
            seen = {}
            out = []
            for n, site in enumerate(sites[i]):
                seen[site] = seen.get(site, 0) + 1
                if seen[site] <= (limit if bound == 1 else 1):
                    out.append(n)
            return out

        for f in (0, 1):
            if bound == 1:
                for n in points(f):
                    one(f, [[n], []] if f == 0 else [[], [n]])
            else:
                for n in points(f):
                    for m in points(1 - f):
                        one(f, [[n], [m]] if f == 0 else [[m], [n]])

    def sites(self, setup, i):
        """The source lines thread i executes alone, in order."""
        o, ops = setup()
        out = []

        def local(frame, event, arg):
            if event == "line":
                out.append((frame.f_code.co_filename, frame.f_lineno))
            return local

        def tracing(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(sched.ROOT) else None

        sys.settrace(tracing)
        try:
            ops[i]()
        finally:
            sys.settrace(None)
        return out


CHECK = Check()
