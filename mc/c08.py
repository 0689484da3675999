"""C08: project and drop equal filling a histogram with fewer axes."""
import itertools

from mc.ref import *
from mc.c02 import spread, used

G1, G2, GB, GB2 = ["groupby", "g"], ["groupby", "k"], ["groupbin", "z", 2, 0, "NL"], ["groupbin", "z", 1, 0, "_H"]
BX, BXN, BXH = ["bin", "x", 2, 0, 2, "UONL"], ["bin", "x", 2, 0, 2, "___L"], ["bin", "x", 3, -1, 2, "_ONH"]
SZ, II, IN, CP, CX = ["split", "z", [0, 1, 3], "_O_L"], ["intbin", "i", 0, 1, "UO"], ["intbin", "i", 0, 1, "__"], ["cut", "p"], ["cut", "x > 1"]
Y, XY = ["profile", "y"], ["profile", "x + y"]

BINNINGS = [
    [], [BX], [BXN], [CP], [G1], [GB], [G1, GB], [GB, G1], [G1, G2], [G1, G2, GB],
    [BX, CP], [BXN, SZ], [II, BXH], [IN, BX, CX], [BX, SZ, CP],
    [G1, BX], [GB, BXN], [GB2, CP], [G1, BX, CP], [G1, GB, BX], [GB, G1, IN, CX], [G1, G2, BXN], [G1, G2, GB, BX],
    [BX, BXH], [G1, SZ, BX, II], [BXN, G1, CP, GB],
]
MANY = [[G1, BX], [GB, G2], [G2, G1, CP], [["intbin", "i"], CP]]
PROFILES = [[], [Y], [XY, Y], [Y, XY, ["profile", "x"]]]
WEIGHTS = [{}, {"weight": "w"}, {"filter": "x > 0"}, {"weight": "w*q", "filter": "p or x > 0", "defs": {"q": "1 + i"}}, {"weight": 0.5}]
QVALS = {"x": [0.5, 1.0, -1.0, 2.0, NAN], "z": [0.5, 2.5, -3.0, NAN], "i": [0.0, 1.0, 5.0], "g": ["a", "bb", "c"], "k": ["u", "v"], "y": [0.5, -2.0], "w": [0.5, 3.0, 0.0], "p": [True, False]}


class Check(object):
    id = "C08"
    case_timeout = 400
    assumptions = ["profile means are compared only for bins of positive total weight",
                   "axes are named unambiguously: by axis object, by position, or by an expression only one axis has"]

    def bounds(self, tier):
        return {"binnings": len(BINNINGS), "profiles": len(PROFILES), "weights": len(WEIGHTS), "rows": "none, one, two with the same group keys, 3 keys, spread of the alphabet product",
                "many": "1..19 and around every power of two up to 257 group keys, bins or profiles", "chains": "every subset of the axes; every chain of two nested subsets; every subset of profiles dropped before, between and after; then a second fill"}

    def cases(self, tier):
        out = []
        for b, p, w in itertools.product(range(len(BINNINGS)), range(len(PROFILES)), range(len(WEIGHTS))):
            if not BINNINGS[b] and not PROFILES[p]:
                continue
            if tier == "quick" and len(BINNINGS[b]) >= 4 and (p + w) % 2:
                continue
            out.append([b, p, w])
        return out + [["many", b, w] for b in range(len(MANY)) for w in (0, 1)]

    def many(self, case, cx):
        """every number of group keys, bins or profiles up to and beyond the powers of two"""
        specs, opts = MANY[case[1]], WEIGHTS[case[2]]
        for n in list(range(1, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 257]:
            rows = [{"g": "n%03d" % (j * 7 % n), "k": "k%d" % (j % 5), "z": float(j), "x": 0.5 * (j % 5) - 0.5, "p": j % 3 == 0, "y": 0.25 * j, "w": 1.0 + j % 4, "i": float(j % n)} for j in range(n)]
            specs1 = [[s[0], s[1], 0, n - 1, "UO"] if s[0] == "intbin" else s for s in specs]
            profs = [Y] if n % 2 else [["profile", "y + %d*x" % j] for j in range(n if n < 20 else 3)]
            ref = Ref(specs1 + profs, **opts)
            h = ref.hist()
            h.fill(columns(rows, h.fields))
            ref.fill(rows)
            nbin = len(specs1)
            for keep in itertools.chain.from_iterable(itertools.combinations(range(nbin), k) for k in range(nbin)):
                cx.step()
                cx.trace()
                out = h.project(*[mk(ref.binspecs[i]) for i in keep])
                r = Ref([ref.binspecs[i] for i in keep] + ref.profspecs, ref.weight, ref.filter, ref.defs)
                r.rows = [rs for rs in ref.rows if ref.locate(rs[0]) is not None]
                cx.state((case, n, keep))
                d = diff(observe(out), r.expected())
                if d is not None:
                    raise core.Violation("%r with %d keys, bins or profiles, projected onto %r\n%s" % (specs1, n, keep, d))
            for gone in ([0], [len(profs) - 1], list(range(0, len(profs), 2))):
                cx.step()
                cx.trace()
                out = h.drop(*[mk(ref.profspecs[i]) for i in gone])
                r = Ref(ref.binspecs + [s for i, s in enumerate(ref.profspecs) if i not in gone], ref.weight, ref.filter, ref.defs)
                r.rows = list(ref.rows)
                d = diff(observe(out), r.expected())
                if d is not None:
                    raise core.Violation("%r with %d keys, bins or profiles, without profiles %r\n%s" % (specs1, n, gone, d))

    def run(self, case, cx):
        if case[0] == "many":
            return self.many(case, cx)
        b, p, w = case
        ref0 = Ref(BINNINGS[b] + PROFILES[p], **WEIGHTS[w])
        fields = used(ref0)
        allrows = [dict(zip(fields, t)) for t in itertools.product(*[QVALS[f] for f in fields])]
        big = spread(allrows, 40 if cx.tier == "thorough" else 24)
        late = spread(allrows[::-1], 7)
        rowsets = [[], [allrows[0]], [allrows[0], dict(allrows[0], **({"y": 7.0} if "y" in fields else {}))], spread(allrows, 3), big]
        nbin = len(ref0.binspecs)
        nprof = len(ref0.profspecs)
        subsets = list(itertools.chain.from_iterable(itertools.combinations(range(nbin), k) for k in range(nbin, -1, -1)))
        psubsets = list(itertools.chain.from_iterable(itertools.combinations(range(nprof), k) for k in range(1, nprof + 1)))

        def sub(ref, keep):
            """The model: same accepted rows, fewer axes."""
            bs = ref.binspecs
            out = Ref([bs[i] for i in keep] + ref.profspecs, ref.weight, ref.filter, ref.defs)
            out.rows = [rs for rs in ref.rows if ref.locate(rs[0]) is not None]
            return out

        def dropped(ref, gone):
            ps = ref.profspecs
            out = Ref(ref.binspecs + [s for i, s in enumerate(ps) if i not in gone], ref.weight, ref.filter, ref.defs)
            out.rows = list(ref.rows)
            return out

        def check(h, ref, what):
            cx.step()
            cx.trace()
            obs = observe(h)
            cx.state((case, what))
            cx.outcome(obshash(obs))
            d = diff(obs, ref.expected())
            if d is None and list(h.axis) != [mk(s) for s in ref.specs]:
                d = "axes are %r, expected %r" % (list(h.axis), ref.specs)
            if d is not None:
                raise core.Violation("%r %r\n%s\n%s" % (ref0.specs, ref0.opts(), what, d))
            return obs

        def names(ref, keep, style):
            if style == "object":
                return [mk(ref.binspecs[i]) for i in keep]
            if style == "index":
                return list(keep)
            exprs = [s[1] for s in ref.specs]
            return [ref.binspecs[i][1] if exprs.count(ref.binspecs[i][1]) == 1 else mk(ref.binspecs[i]) for i in keep]

        styles = ["object", "index", "expr"]
        for ri, rows in enumerate([None] + rowsets):
            ref = ref0.copy()
            h = ref.hist()
            if rows is not None:
                h.fill(columns(rows, fields))
                ref.fill(rows)
            before = observe(h) if rows is not None else {}
            final = ri == len(rowsets)
            for si, keep in enumerate(subsets):
                style = styles[(si + ri) % 3]
                args = names(ref, keep, style)
                if si % 2:
                    args = args[::-1]
                what = "%s rows, project(%s)" % (None if rows is None else len(rows), ", ".join(map(repr, args)))
                one = h.project(*args)
                r1 = sub(ref, keep)
                check(one, r1, what)
                if not final and ri not in (0, 3):
                    continue
                # chains: nested subsets
                if final:
                    for keep2 in itertools.chain.from_iterable(itertools.combinations(range(len(keep)), k) for k in range(len(keep))):
                        two = one.project(*names(r1, keep2, "object"))
                        check(two, sub(r1, keep2), what + " project %r" % (keep2,))
                for gone in (psubsets if final else psubsets[-1:]):
                    dargs = [[mk(ref.profspecs[i]) for i in gone], [ref.profspecs[i][1] for i in gone], [len(keep) + i for i in gone]][si % 3]
                    check(one.drop(*dargs), dropped(r1, gone), what + " drop(%s)" % ", ".join(map(repr, dargs)))
                    if si < 4:
                        d1 = h.drop(*[mk(ref.profspecs[i]) for i in gone])
                        rd = dropped(ref, gone)
                        check(d1, rd, "drop %r" % (gone,))
                        check(d1.project(*[mk(ref.binspecs[i]) for i in keep]), sub(rd, keep), "drop %r then project %r" % (gone, keep))
                # the result is a histogram of its own: fill it further
                if one.fields:
                    more = r1.copy()
                    one.fill(columns(late, one.fields))
                    more.fill(late)
                    check(one, more, what + " then filled")
            if rows is not None:
                d = diff(observe(h), before)
                if d is not None:
                    raise core.Violation("projecting changed the original: " + d)
        cx.sample({"axes": ref0.specs, "opts": ref0.opts(), "subsets": subsets[:6], "rows": [repr(r) for r in big[:3]]})


CHECK = Check()
