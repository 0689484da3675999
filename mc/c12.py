"""C12: table and fraction report the statistics their options promise."""
import itertools

from mc.ref import *
from mc.c02 import spread, used
from mc.c08 import G1, G2, GB, GB2, BX, BXN, BXH, SZ, II, IN, CP, CX, Y, XY, QVALS

CZ, CI = ["cut", "z > 1"], ["cut", "i > 0"]
BINNINGS = [
    [], [BX], [BXN], [BXH], [SZ], [II], [CP], [G1], [GB], [G1, GB], [SZ, BX], [BX, SZ], [BXN, SZ], [SZ, IN], [II, SZ, CP], [CP, CX], [CP, BX, CX], [SZ, CP],
    [G1, SZ], [GB, BX, SZ], [G1, GB2, CP], [G1, CX, CP, BXH], [CX, CP, CI], [GB, SZ, CP, II], [["split", "x", [-1, 0, 2, 3.5], "U_NH"], ["split", "z", [0, 1, 3], "_O_L"], CP],
]
PROFILES = [[], [Y], [XY, Y]]
WEIGHTS = [{}, {"weight": "w"}, {"filter": "x > 0"}, {"weight": "w*q", "filter": "p or x > 0", "defs": {"q": "1 + i"}}, {"weight": 0.5}]
SIGMA = {0.6827: 1.0000217, None: 1.0, 0.95: 1.959963984540054, 0.5: 0.6744897501960817, 0.99: 2.5758293035489004}


def widths(spec):
    """Width of every bin of a fixed axis, in key order; infinite for flow bins."""
    if spec[0] == "cut":
        return [1.0, 1.0]
    out = []
    for k in refkeys(spec, _exact):
        out.append(1.0 if k[0] == "i" else INF if k[0] == "NaN" else k[2] - k[1])
    return out


def _exact(lo, hi, cl, ch):
    return ("I", lo, hi, cl, ch)


def read(h, table, ncol, names, recarray):
    """Walks a table next to the axis keys: key -> tuple of columns, for every bin."""
    groups = [x for x in h.axis if isinstance(x, histbook.axis.GroupAxis)]
    fixed = [x for x in h.axis if isinstance(x, histbook.axis.FixedAxis)]
    fkeys = [[obskey(k) for k in x.keys()] for x in fixed]
    out = {}

    def leaf(array, key):
        if recarray:
            if array.dtype.names != tuple(names):
                raise core.Violation("record array has columns %r, expected %r" % (array.dtype.names, names))
            if array.shape != tuple(len(k) for k in fkeys):
                raise core.Violation("record array has shape %r, expected %r" % (array.shape, [len(k) for k in fkeys]))
        elif array.shape != tuple(len(k) for k in fkeys) + (ncol,):
            raise core.Violation("array has shape %r, expected %r and %d columns" % (array.shape, [len(k) for k in fkeys], ncol))
        for idx in itertools.product(*[range(len(k)) for k in fkeys]):
            cell = array[idx]
            out[key + tuple(fkeys[j][i] for j, i in enumerate(idx))] = tuple(float(cell[n]) for n in names) if recarray else tuple(float(z) for z in cell)

    def group(j, content, key):
        if j == len(groups):
            leaf(content, key)
        else:
            if not isinstance(content, dict):
                raise core.Violation("no dict for group axis %r" % groups[j])
            items = groups[j].items(content)
            if [obskey(k) for k, x in items] != [obskey(k) for k in groups[j].keys(content)] or len(items) != len(content):
                raise core.Violation("keys, items and content of %r differ" % groups[j])
            for k, x in items:
                k = obskey(k)
                group(j + 1, x, key + (("g", k[1]) if k[0] in "ib" else k,))

    group(0, table, ())
    return out


class Check(object):
    id = "C12"
    case_timeout = 300
    assumptions = ["at least one column is requested", "profile means, errors and effective counts are 0 in bins without positive total weight",
                   "normalization is checked for histograms with positive counts in finite bins and no NaN or infinite group keys; the normalized counts (pinned by tests/test_proj.py) are counts per bin volume scaled to sum to one, 0 in flow bins",
                   "fraction errors: 'normal' and 'wilson' only, the others are not implemented"]

    def bounds(self, tier):
        return {"binnings": len(BINNINGS), "profiles": len(PROFILES), "weights": len(WEIGHTS), "options": "every combination of count, error, effcount, normalized, recarray, columns x every ordered selection of profiles",
                "fractions": "every non-empty ordered selection of cuts x count x error kind x levels x recarray x columns", "row_sets": "unfilled, none, one, spread of the alphabet"}

    def cases(self, tier):
        return sorted(([b, p, w] for b, p, w in itertools.product(range(len(BINNINGS)), range(len(PROFILES)), range(len(WEIGHTS))) if BINNINGS[b] or PROFILES[p]), key=core.h64)

    def refused(self, h, ref, cuts, cx):
        """What is not a cut of the histogram has no fraction, and options that do not exist are refused."""
        what = "%r %r" % (ref.specs, ref.opts())
        calls = [("table(counts=True)", lambda: h.table(counts=True)), ("table with a profile there is not", lambda: h.table("unheard + of"))]
        for s in ref.binspecs + ref.profspecs:
            if s[0] != "cut":
                calls.append(("fraction(%r)" % (s,), lambda s=s: h.fraction(mk(s))))
                if s[1] not in [c[1] for c in cuts]:
                    calls.append(("fraction(%r)" % (s[1],), lambda s=s: h.fraction(s[1])))
            if s[0] != "profile" and s[1] not in [q[1] for q in ref.profspecs]:
                calls.append(("table(%r)" % (s[1],), lambda s=s: h.table(s[1])))
        if cuts:
            args = [c[1] for c in cuts]
            calls += [("fraction(%r, %s=%r)" % (args, k, v), lambda k=k, v=v: h.fraction(*args, **{k: v})) for k, v in (("counts", True), ("error", "unheard-of"), ("levels", 0.5), ("error", "Normal"))]
            calls.append(("fraction of a cut there is not", lambda: h.fraction("unheard > of")))
            plain = h.fraction(*args, error=None, recarray=False)
            for kind in ("clopper-pearson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"):
                cx.step()
                try:
                    got = h.fraction(*args, error=kind, recarray=False)
                except NotImplementedError:
                    continue

                def same(x, y):
                    return set(x) == set(y) and all(same(x[k], y[k]) for k in x) if isinstance(x, dict) else bool(numpy.array_equal(x[..., 1::2], y[..., 1:]))

                if not same(got, plain):
                    raise core.Violation("%s: the fractions with %r errors are %r and without %r" % (what, kind, got, plain))
        for name, f in calls:
            cx.step()
            try:
                got = f()
            except (TypeError, ValueError, IndexError):
                continue
            raise core.Violation("%s: %s was accepted: %r" % (what, name, got))

    def run(self, case, cx):
        b, p, w = case
        ref0 = Ref(BINNINGS[b] + PROFILES[p], **WEIGHTS[w])
        fields = used(ref0)
        allrows = [dict(zip(fields, t)) for t in itertools.product(*[QVALS[f] for f in fields])]
        big = spread(allrows, 30)
        finite = [r for r in big if r.get("z") == r.get("z")]
        tame = [r for r in spread(allrows, 200) if r.get("z") == r.get("z")][:30]
        nprof = len(ref0.profspecs)
        groups = [s for s in ref0.binspecs if isgroup(s)]
        fixed = [s for s in ref0.binspecs if isfixed(s)]
        vol = {}
        for combo in itertools.product(*[list(zip(refkeys(s), widths(s))) for s in fixed]):
            v = 1.0
            for k, x in combo:
                v *= x
            vol[tuple(k for k, x in combo)] = v
        fkeys = [refkeys(s) for s in fixed]
        orders = list(itertools.chain.from_iterable(itertools.permutations(range(nprof), k) for k in range(nprof + 1)))

        def snapshot(h):
            return repr(h.tojson())

        for rows in ([None, [], [allrows[0]], big, tame] if cx.tier == "thorough" or len(BINNINGS[b]) < 3 else [None, big, tame]):
            ref = ref0.copy()
            h = ref.hist()
            if rows is not None:
                h.fill(columns(rows, fields))
                ref.fill(rows)
            before = snapshot(h)
            exp = ref.expected()
            gkeys = set(k[:len(groups)] for k in exp)
            ngood = len(groups)
            dens = {}
            for k, v in exp.items():
                dens[k] = v[0] / vol[k[ngood:]]
            total = sum(dens.values())
            for order in orders:
                for count, error, effcount, normalized, recarray, showcols in itertools.product([True, False], repeat=6):
                    if not (count or effcount or order):
                        continue
                    if normalized and (not count or rows is not tame or not total > 0):
                        continue
                    if cx.tier == "quick" and showcols and not (count ^ recarray):
                        continue
                    opts = {"count": count, "error": error, "effcount": effcount, "normalized": normalized, "recarray": recarray, "columns": showcols}
                    opts = dict((k, v) for k, v in opts.items() if v != {"count": True, "error": True, "effcount": False, "normalized": False, "recarray": True, "columns": False}[k])
                    names = (["count()"] + (["err(count())"] if error else []) if count else []) + (["effcount()"] if effcount else [])
                    for j in order:
                        e = ref.profspecs[j][1]
                        names += [e] + (["err(%s)" % e] if error else [])
                    style = len(names) % 2
                    args = [mk(ref.profspecs[j]) if style else ref.profspecs[j][1] for j in order]
                    what = "%r %r\n%s rows, table(%s, %r)" % (ref.specs, ref.opts(), None if rows is None else len(rows), args, opts)
                    cx.step()
                    cx.trace()
                    cx.state((case, what))
                    got = h.table(*args, **opts)
                    if showcols:
                        if not isinstance(got, tuple) or list(got[1]) != names:
                            raise core.Violation("%s\ncolumns are %r, expected %r" % (what, got[1], names))
                        got = got[0]
                    obs = read(h, got, len(names), names, recarray)
                    want = {}
                    for g in gkeys | set(k[:ngood] for k in obs):
                        for fk in itertools.product(*fkeys):
                            v = exp.get(g + fk)
                            if v is None:
                                want[g + fk] = (0.0,) * len(names)
                                continue
                            c, err = v[0], v[1]
                            if normalized:
                                scale = 1.0 / (vol[fk] * total)
                                c, err = c * scale, err * scale
                            cell = ([c] + ([err] if error else []) if count else []) + ([v[2]] if effcount else [])
                            for j in order:
                                cell += [v[3 + 2 * j]] + ([v[4 + 2 * j]] if error else [])
                            want[g + fk] = tuple(cell)
                    for k in sorted(set(obs) | set(want), key=repr):
                        o, e = obs.get(k), want.get(k)
                        if o is None and not any(e):
                            continue
                        if o is None or e is None or len(o) != len(e) or not all(close(x, y, 1e-6 if n.startswith("err(") else 1e-9) for x, y, n in zip(o, e, names)):
                            raise core.Violation("%s\n%r: got %r expected %r (%r)" % (what, k, o, e, names))
                    cx.outcome(repr(sorted(obs.items(), key=repr)))
            if snapshot(h) != before:
                raise core.Violation("table changed the histogram %r %r" % (ref.specs, ref.opts()))

            # fractions
            cuts = [s for s in fixed if s[0] == "cut"]
            for sel in itertools.chain.from_iterable(itertools.permutations(range(len(cuts)), k) for k in range(1, len(cuts) + 1)):
                chosen = [cuts[i] for i in sel]
                rest = [s for s in ref.binspecs if s not in chosen]
                denom = Ref(rest, ref.weight, ref.filter, ref.defs)
                denom.rows = [rs for rs in ref.rows if ref.locate(rs[0]) is not None]
                dstats = denom.expected()
                passing = []
                for s in chosen:
                    q = Ref(rest, ref.weight, ref.filter, ref.defs)
                    q.rows = [rs for rs in denom.rows if pyeval(s[1], withdefs(ref.defs, rs[0]))]
                    passing.append(q.expected())
                optlist = [{}] + [dict([("count", c)] if not c else [], **dict(e, recarray=r, columns=k)) for c, e, r, k in itertools.product([True, False], [
                    {}, {"error": None}, {"error": "normal", "level": 0.95}, {"level": [0.5, 0.99]}, {"error": "wilson"}, {"error": "wilson", "level": (0.95, 0.5)}], [True, False], [True, False])]
                if cx.tier == "quick" and (len(sel) > 1 or rows is not big):
                    optlist = optlist[sum(sel) % 5::5]
                turn = core.h64((case, sel)) % 5
                for opts in optlist:
                    error = opts.get("error", "normal")
                    levels = opts.get("level", None)
                    levels = list(levels) if isinstance(levels, (list, tuple)) else [levels]
                    names = ["count()"] if opts.get("count", True) else []
                    for s in chosen:
                        names.append(s[1])
                        if error:
                            names += ["err(%s)" % s[1] if lv is None else None for lv in levels]
                    args = [mk(s) if len(names) % 2 else s[1] for s in chosen]
                    what = "%r %r\n%s rows, fraction(%s, %r)" % (ref.specs, ref.opts(), None if rows is None else len(rows), args, opts)
                    cx.step()
                    cx.trace()
                    cx.state((case, what))
                    given = dict(opts)
                    if isinstance(given.get("level"), list):
                        # any iterable of levels
                        turn += 1
                        given["level"] = [list, tuple, iter, numpy.array, (lambda v: (z for z in v))][turn % 5](given["level"])
                    got = h.fraction(*args, **given)
                    if opts.get("columns"):
                        got, cols = got
                        if len(cols) != len(names) or any(n is not None and n != c for n, c in zip(names, cols)):
                            raise core.Violation("%s\ncolumns are %r, expected %r" % (what, cols, names))
                        names = list(cols)
                    elif opts.get("recarray", True):
                        x = got
                        while isinstance(x, dict) and x:
                            x = next(iter(x.values()))
                        if not isinstance(x, dict):
                            if len(x.dtype.names) != len(names) or any(n is not None and n != c for n, c in zip(names, x.dtype.names)):
                                raise core.Violation("%s\ncolumns are %r, expected %r" % (what, x.dtype.names, names))
                            names = list(x.dtype.names)
                    obs = read(denom.hist(), got, len(names), names, opts.get("recarray", True))
                    rkeys = [refkeys(s) for s in rest if isfixed(s)]
                    want = {}
                    for g in set(k[:ngood] for k in obs) | set(k[:ngood] for k in dstats):
                        for fk in itertools.product(*rkeys):
                            d = dstats.get(g + fk)
                            n = d[0] if d else 0.0
                            cell = [n] if opts.get("count", True) else []
                            for q in passing:
                                v = q.get(g + fk)
                                if not n > 0:
                                    cell += [0.0] * (1 + (len(levels) if error else 0))
                                    continue
                                pp = (v[0] if v else 0.0) / n
                                cell.append(pp)
                                if error:
                                    for lv in levels:
                                        z = SIGMA[lv]
                                        if error == "normal":
                                            cell.append(z * math.sqrt(max(0.0, pp * (1 - pp)) / n))
                                        else:
                                            cell.append((pp + 0.5 * z * z / n + z * math.sqrt(max(0.0, pp * (1 - pp)) / n + 0.25 * z * z / (n * n))) / (1 + z * z / n))
                            want[g + fk] = tuple(cell)
                    for k in sorted(set(obs) | set(want), key=repr):
                        o, e = obs.get(k), want.get(k)
                        if o is None and not any(e):
                            continue
                        if o is None or e is None or len(o) != len(e) or not all(close(x, y, 1e-7) for x, y in zip(o, e)):
                            raise core.Violation("%s\n%r: got %r expected %r (%r)" % (what, k, o, e, names))
                    cx.outcome(repr(sorted(obs.items(), key=repr)))
            if rows is big:
                self.refused(h, ref, cuts, cx)
            if snapshot(h) != before:
                raise core.Violation("fraction changed the histogram %r %r" % (ref.specs, ref.opts()))
        cx.sample({"axes": ref0.specs, "opts": ref0.opts()})


CHECK = Check()
