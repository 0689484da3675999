#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Every value lands in exactly the bin whose published interval contains it",
     "Filling a value into a groupby, groupbin, bin, intbin, split or cut axis increments exactly one bin, the one whose published key (as given by the axis's keys) contains that value under the documented closed/open edges, and increments nothing when the only place for it is an underflow, overflow or nanflow bin that the axis was told not to have. The keys of a numeric axis are ordered, disjoint and together with the flow bins cover the whole line and NaN. This holds for every combination of axis options, for values on, just below and just above every edge, for huge and infinite values and NaN, and for every numeric array type that carries the same values.",
     ["inputs", "configurations"],
     "every axis type and option combination x every value of an alphabet of edges, edge neighbours, mid-points, huge values, infinities and NaN x every array dtype that can hold it",
     "tests/test_hist.py fills a few hand-picked values into a few option combinations; it never fills infinities, huge integers or narrow dtypes, nor all flag combinations on all edges.",
     ["histbook/calc/__init__.py", "histbook/axis.py", "histbook/hist.py"],
     [("binning kernels histbook_bin / intbin / split / groupbin / groupby / cut", "histbook/calc/__init__.py"), ("keys()", "histbook/axis.py"), ("_postfill index arithmetic", "histbook/hist.py")],
     ["Hist.table", "Axis.keys", "Hist[...]"])

prop("C02", "Bin statistics equal the sums over exactly the entries that fall in the bin",
     "After any fill, every bin of a histogram with any mix of group, fixed and profile axes reports the sum of weights, the sum of squared weights (through the error) and, per profile, the weighted mean and its error of exactly the rows that fall in that bin, with rows failing the filter, rows with a NaN weight and rows dropped by any axis contributing nothing at all to any of them. Constant weights, weight expressions, a filter, and a filter together with a weight are all covered, and a scalar fill argument stands for the same value on every row.",
     ["inputs", "configurations"],
     "every arrangement of up to three independent axes (with and without flow bins) x 0..2 profiles x weight/filter mode x every row multiset over a small alphabet",
     "tests/test_fill.py and test_hist.py check a few profiles and weights, never combined with dropped rows, several group axes, or filter plus weight.",
     ["histbook/hist.py", "histbook/fill.py", "histbook/calc/__init__.py", "histbook/proj.py"],
     [("_postfill/fillblock/filldict", "histbook/hist.py"), ("Fillable._fill", "histbook/fill.py")],
     ["Hist.table"])

prop("C03", "Fills are additive: order, chunking and merging never change the result",
     "Filling a data set in any order, in any split into consecutive fills (including empty ones), or in separately filled histograms that are later combined with + or += gives the same bin contents as one fill of everything (and, with at most one group axis, an equal histogram); combination is commutative and associative, an unfilled histogram is its neutral element, and multiplying by a number scales every bin's contents linearly, so that h*2 equals h+h. The same laws hold for the operators of books, applied histogram by histogram.",
     ["histories", "inputs"],
     "every composition of a fixed row sequence into chunks and histograms, every merge tree and every interleaving of fill, +, +=, *, *= up to a bounded depth",
     "the tests add and scale one or two specific histograms; they never compare different histories of the same data.",
     ["histbook/hist.py", "histbook/book.py", "histbook/fill.py"],
     [("Hist.__add__/__iadd__/__mul__/__imul__", "histbook/hist.py"), ("GenericBook.__add__/__iadd__/__mul__/__imul__", "histbook/book.py"), ("_prefill", "histbook/hist.py")],
     ["Hist.table", "Hist.__eq__"])

prop("C04", "Filled expressions compute what they say",
     "For any expression made of fields, constants, definitions, arithmetic operators, comparisons, logical connectives, set membership and the documented functions, the value that reaches an axis, profile, weight, filter or cut is the ordinary mathematical value of that expression on the row's fields, however the library rewrites, factors or shares its subexpressions. Substituting a definition is the same as writing its text in parentheses, and text the library does not support is rejected with an expression error instead of being computed as something else.",
     ["programs", "inputs"],
     "every expression of a grammar up to a bounded size x every assignment of a small value alphabet to its fields",
     "tests/test_expr.py and test_instr.py check the shape of a few parse trees and tests/test_calc.py a few values; no test evaluates arbitrary nestings.",
     ["histbook/expr.py", "histbook/instr.py", "histbook/calc/__init__.py", "histbook/fill.py"],
     [("Expr.parse and its normal form", "histbook/expr.py"), ("totree/instructions", "histbook/instr.py"), ("library/calculate", "histbook/calc/__init__.py")],
     ["Hist.fill + Hist.table"])

prop("C05", "Equivalent spellings name the same axis, different ones do not",
     "Two expressions that differ only by reordering or regrouping sums and products, distributing products over sums, collecting or cancelling like terms, folding constants, mirroring comparisons or rearranging and/or/not are equal, hash alike and find the same axis; expressions that take different values on some fields are never equal. Parsing is deterministic and equality is consistent with hashing and ordering.",
     ["programs"],
     "every pair of expressions of a bounded grammar, compared with the algebraic oracle (exact evaluation on a separating set of points)",
     "tests/test_expr.py asserts equality for a list of hand-written pairs.",
     ["histbook/expr.py", "histbook/proj.py"],
     [("RingAlgebra collect/distribute/combine, Logical normal form", "histbook/expr.py"), ("AxisTuple lookup", "histbook/proj.py")],
     ["Expr.parse(...) ==, hash", "Hist.axis[expr]"])

prop("C06", "Filling a book equals filling each of its histograms separately",
     "After any history of creating, inserting, replacing and removing histograms and nested books, filling the book leaves every histogram it contains exactly as if that histogram alone had been filled with the same data, and leaves histograms that are no longer in it untouched. It does not matter which expressions the histograms share, in what order they were inserted, at what level of nesting a change was made, or whether fills of the book and of its members are interleaved.",
     ["histories", "configurations"],
     "every sequence of book mutations and fills up to a bounded depth over a small universe of histograms and paths, and every subset of a histogram universe with shared subexpressions",
     "tests/test_book.py fills two or three fixed books once.",
     ["histbook/book.py", "histbook/fill.py", "histbook/instr.py", "histbook/hist.py"],
     [("Book.fill/_streamline/_goals/_changed", "histbook/book.py"), ("Fillable.fields cache", "histbook/fill.py"), ("walkdown/instructions", "histbook/instr.py")],
     ["Book.fill", "Hist.table"],
     [("cached instructions and destinations", "what a book fill computes and where it stores it", "histbook/fill.py, histbook/book.py")])

prop("C07", "select keeps exactly the bins of the data that satisfies the expression",
     "Whenever select accepts an expression, the result has the contents that filling only the rows satisfying the expression would have produced, restricted to bins that lie wholly inside the selection, with axes whose keys describe exactly those bins; the result can itself be filled, selected and projected further. Whenever the expression cuts through a bin, uses the wrong inequality for the axis's closed edges or does not match any axis, select raises an error and never returns an approximate answer.",
     ["inputs", "configurations", "histories"],
     "every axis type and option combination x every comparison operator x every threshold on, between and outside the edges and at the infinities and NaN x conjunctions, disjunctions and chains of selections",
     "tests/test_proj.py selects a few thresholds on default axes.",
     ["histbook/proj.py", "histbook/axis.py"],
     [("Projectable.select/_select/_selectaxis", "histbook/proj.py"), ("Axis._select", "histbook/axis.py")],
     ["Hist.select", "Hist.table", "Axis.keys"])

prop("C08", "project and drop equal filling a histogram with fewer axes",
     "Projecting onto any subset of the axes gives the same contents as filling a histogram that only ever had those axes from the rows the original accepted, for every mixture of group and fixed axes, profiles and weights, however few or many group keys exist; dropping profiles removes exactly those profiles and keeps all other statistics. Projections compose: projecting in steps or all at once gives the same histogram.",
     ["inputs", "configurations", "histories"],
     "every axis arrangement x every subset kept x every chain of projections and drops x row multisets over a small alphabet, including no rows and a single group key",
     "tests/test_proj.py projects a few fixed histograms and never drops.",
     ["histbook/proj.py"],
     [("Projectable.project, drop", "histbook/proj.py")],
     ["Hist.project", "Hist.drop", "Hist.table"])

prop("C09", "Rebinning equals filling with the coarser binning",
     "rebin with any subset of an axis's edges, and rebinby with any factor, give the same contents (and equal axis keys) as filling the coarser axis directly from the same rows, merging bins outside the new range into existing flow bins, conserving the totals of the bins that are kept, and leaving other axes alone; edges that are not existing edges are rejected. Rebinning composes.",
     ["inputs", "configurations"],
     "every fixed axis type and flag combination x every subset of edges / every factor x axis position among other axes x rows on every bin",
     "tests/test_proj.py rebins a few edge subsets of one axis; rebinby is not tested.",
     ["histbook/proj.py", "histbook/axis.py"],
     [("Projectable.rebin/rebinby", "histbook/proj.py"), ("_rebinsplit/_rebinfactor", "histbook/axis.py")],
     ["Hist.rebin", "Hist.rebinby", "Hist.table"])

prop("C10", "Derived histograms and books are independent of their sources",
     "Any histogram or book obtained from others by copy, copyonfill, cleared, weight, filter, +, *, select, project, rebin, drop, group or a round trip shares no observable state with them: whatever is later filled into, added to, scaled, cleared or attached to either side, the other side's contents, attachments and future behaviour do not change. In particular a deferred copy keeps the contents it had when it was made, no matter which side is modified first. A derived histogram starts with its source's attachments and definitions.",
     ["histories"],
     "every pair (derivation, later mutation) and every sequence of derivations and mutations on either side up to a bounded depth",
     "no test mutates one side of a derivation and re-reads the other.",
     ["histbook/hist.py", "histbook/proj.py", "histbook/book.py"],
     [("copy/copyonfill/_copycontent", "histbook/hist.py"), ("__add__/__mul__", "histbook/hist.py"), ("_selectaxis/project/drop", "histbook/proj.py"), ("GenericBook.copy/copyonfill/__add__", "histbook/book.py")],
     ["Hist.table", "Hist.attachment"])

prop("C11", "Pickle and JSON round trips preserve a histogram completely",
     "Pickling, deep-copying or converting to JSON (through JSON text) and back yields an equal histogram or book, with equal axes, contents, weight, filter, definitions, attachments and nesting; the restored object behaves identically under every later fill, addition, selection and projection, and serializing does not disturb the original. This holds at every point of any history of fills.",
     ["histories", "configurations"],
     "every axis type and option combination, every weight/filter/definition mode, every group key kind x every short history of fills and operations x every round trip inserted at every point",
     "tests/test_hist.py pickles and JSON-converts default axes once, and does not go through JSON text or fill afterwards.",
     ["histbook/hist.py", "histbook/axis.py", "histbook/book.py"],
     [("tojson/fromjson, __getstate__/__setstate__, _pack/_unpack", "histbook/hist.py, histbook/axis.py, histbook/book.py")],
     ["Hist.__eq__", "Hist.table", "json.dumps(Hist.tojson())"])

prop("C12", "table and fraction report the statistics their options promise",
     "For every combination of options, table returns one cell per bin in key order with the requested columns and only those, count, err(count), effective count, profile mean and error computed by their documented formulas from the rows in the bin, with normalized counts equal to counts divided by the bin's volume (each axis's own width) and scaled to sum to one over the finite bins, flow bins being zero; fraction returns the exact passing fraction of each requested cut per remaining bin, with the denominator count and the binomial error at the requested confidence level. Record-array and plain-array forms agree and asking for a table never changes the histogram. Options, error kinds and cuts that do not exist are refused.",
     ["inputs", "configurations"],
     "every axis arrangement x weight mode x option combination x row multisets over a small alphabet",
     "tests/test_proj.py checks a few tables with default options and one normalization.",
     ["histbook/proj.py"],
     [("Projectable.table/_fraction", "histbook/proj.py")],
     ["Hist.table", "Hist.fraction"])

prop("C13", "Grouping histograms keeps each one retrievable and adds nothing",
     "Grouping named histograms or books gives a histogram with one new categorical axis whose bins for each name are exactly the contents of that histogram, so that selecting a name and projecting the axis away recovers it and projecting the whole group gives their sum; adding more histograms to an existing group extends it or adds to the name already present. Combinations that cannot be represented faithfully are refused regardless of the order of the arguments.",
     ["histories", "configurations"],
     "every tuple of up to three histograms over axis arrangements and weight/filter modes, filled or not, in every order, followed by every short sequence of group additions",
     "tests/test_hist.py groups two filled unweighted histograms; adding to a group is never executed.",
     ["histbook/hist.py", "histbook/book.py"],
     [("Hist.group/togroup, GenericBook.group", "histbook/hist.py, histbook/book.py")],
     ["Hist.group", "Hist.togroup", "Book.group", "Hist.table"])

prop("C14", "Rejected calls change nothing and caller-owned data is never modified",
     "A call that raises (missing field, arrays of different length, unknown axis, incompatible operands, invalid selection, edge or factor, unsupported expression) leaves every involved histogram and book with the contents, axes and future behaviour it had before, so that the next valid call succeeds as if the failed one had not been made. No operation ever modifies the arrays, dicts or axis objects the caller passed in.",
     ["histories", "inputs"],
     "every failing call of an alphabet injected at every point of every short history, on histograms and on books, and every fill with array arguments monitored bitwise",
     "tests only use valid calls, apart from a few assertRaises that never look at the state afterwards.",
     ["histbook/hist.py", "histbook/fill.py", "histbook/book.py", "histbook/proj.py", "histbook/calc/__init__.py"],
     [("fill = prefill/_fill/_postfill", "histbook/hist.py, histbook/book.py"), ("out= arguments of kernels", "histbook/calc/__init__.py")],
     ["Hist.table", "caller's arrays"])

prop("C15", "A book is a path-addressed ordered mapping",
     "A book behaves as an ordered tree of names under every sequence of assignments, deletions and lookups by name, slash-separated path or wildcard: lookups return the object last stored at that path, wildcards return exactly the matching entries in order, deletion removes exactly the named or matching entries, missing paths raise KeyError and change nothing, and keys, values, items, membership, length and iteration (recursive, histogram-only or not) always describe the same tree. Equality, copies, compatibility and arithmetic of books follow that tree.",
     ["histories"],
     "every sequence of assignments, deletions and lookups up to a bounded depth over a small alphabet of names, nested paths and patterns, against a reference tree",
     "tests/test_book.py checks a handful of lookups on one fixed book and never deletes.",
     ["histbook/book.py"],
     [("GenericBook _get/_set/_del/_iteritems/__getitem__/__delitem__", "histbook/book.py")],
     ["GenericBook mapping API"])

prop("C16", "Histograms filled from different threads do not disturb each other",
     "When different threads construct, fill, copy, scale, project, select or tabulate different histograms or books at the same time, even ones built from the same axis objects or made from one another, every thread obtains the result it would have obtained alone, under every interleaving of their steps.",
     ["schedules"],
     "every schedule of two threads with a bounded number of preemptions at line granularity inside the library, over pairs of operations",
     "the tests are single-threaded.",
     ["histbook/hist.py", "histbook/fill.py", "histbook/expr.py", "histbook/instr.py", "histbook/axis.py", "histbook/calc/__init__.py"],
     [("all fill scratch state is per histogram", "histbook/fill.py, histbook/hist.py"), ("expressions are immutable after parsing", "histbook/expr.py")],
     ["Hist.table after join"])

prop("C17", "Plot specifications show exactly the histogram's data",
     "The Vega-Lite specification produced by any plotting chain or combination carries one datum per displayed bin with the bin's position or label on the encoded field and exactly the count, profile mean and error that the histogram projected onto the plotted axes reports for that bin, and every encoding refers to a field that is present with that meaning. The representation of a chain makes the same plot, and an axis may be left out exactly where there is only one choice. Combined plots keep the data of their members apart, chains and combinations that cannot be drawn are refused, and producing a plot never changes the histogram.",
     ["configurations", "inputs"],
     "every plotting chain over channel kinds, mark kinds, axis kinds, error/normalized/profile options and combinations of up to three plots",
     "no test draws a plot.",
     ["histbook/vega.py"],
     [("Plotable1d/Plotable2d._data/_vegalite, Combination._collectdata/_fill", "histbook/vega.py")],
     ["vegalite()"])

prop("C18", "Exports carry the same numbers as the histogram",
     "Exporting to a Pandas DataFrame gives one row per bin, labelled by that bin's keys on every axis and holding exactly the columns of the corresponding table or fraction, for every arrangement of axes; exporting to ROOT gives a one-dimensional histogram or profile with the same binning, underflow, overflow, contents, errors and number of entries. Exporting never changes the histogram.",
     ["configurations", "inputs"],
     "every axis arrangement and flag combination x weight and profile modes x row multisets, against recording stand-ins of the pandas and ROOT interfaces",
     "pandas and ROOT are not installed where the tests run; nothing executes these paths.",
     ["histbook/export.py"],
     [("Exportable.pandas/root", "histbook/export.py")],
     ["arguments passed to the pandas / ROOT constructors and setters"])

prop("C19", "Views, samples and systematics books fill exactly what they select",
     "A view of a channels or samples book contains exactly the histograms whose path matches its pattern, in place: filling the view fills those histograms in the original book and no others. A samples book gives every sample its own independent histograms, and a systematics book accepts exactly the compatible histograms that carry a systematic attachment and can be filled, copied and restored like any other book.",
     ["histories", "configurations"],
     "every pattern of an alphabet x every book tree of bounded size x every sequence of view fills and sample fills up to a bounded depth",
     "tests/test_book.py builds two such books and fills one view.",
     ["histbook/book.py"],
     [("ViewableBook.view, SamplesBook, SystematicsBook", "histbook/book.py")],
     ["GenericBook mapping API", "Hist.table"])

prop("C20", "Filling from a Pandas or Spark DataFrame equals filling from arrays",
     "Filling a histogram or book from a Pandas or Spark DataFrame, once or repeatedly or mixed with array fills, or through the fill= option of the constructor, yields the same bin contents as filling the same rows from arrays: for every axis kind, profile, weight, filter and cut, and every expression that the Spark backend supports.",
     ["inputs", "configurations", "histories"],
     "every combination of axis kinds, flags, profiles, weight and filter, expression, and fill history, over DataFrames without nulls (finite values, and NaN on bin and split axes)",
     "pandas and pyspark are not installed where the tests run, so nothing executes these paths; the check interprets them with stand-ins that follow SQL semantics.",
     ["histbook/calc/spark.py", "histbook/hist.py", "histbook/book.py", "histbook/fill.py"],
     [("fillspark", "histbook/calc/spark.py"), ("Fillable.fill", "histbook/fill.py")],
     ["Hist.fill", "Book.fill", "Hist(fill=...)"])

prop("C21", "Axes, intervals and histograms describe themselves faithfully",
     "Every axis reports exactly the options it was built with (attributes, repr that evaluates to an equal axis, copies, JSON, keys, items, number of bins, finiteslice), refuses invalid options, is equal to (and hashes like) another axis exactly if kind and all options agree, and is compatible exactly if all but the expression agree. Intervals are equal, hashed and ordered by position with NaN last. A histogram finds its axes by position, by any equivalent spelling of the expression, and by kind with any subset of options, and raises IndexError otherwise; fields lists each field a fill needs exactly once and nothing else; shape, groupkeys and direct indexing agree with the contents; repr evaluates to an equal unfilled histogram. Histograms are equal exactly if their axes, weight, filter, definitions, contents and attachments agree, compatible exactly if their group and fixed axes are pairwise compatible, and refuse options they do not know.",
     ["inputs", "configurations", "histories"],
     "every axis of a universe of kinds, flags and binnings, every ordered pair of them, every interval pair, every mixture of axes with weight, filter and definitions in every fill state",
     "The tests look up a handful of axes; option combinations and pairs are products no test lists.",
     ["histbook/axis.py", "histbook/hist.py", "histbook/fill.py"],
     [("Interval", "histbook/axis.py"), ("Axis", "histbook/axis.py"), ("Hist.axis", "histbook/hist.py"), ("Fillable.fields", "histbook/fill.py")],
     ["Hist.axis", "Hist.fields", "Hist.groupkeys", "Axis.keys", "Interval"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
