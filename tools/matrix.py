"""Writes section 8 of DESIGN.md: every planted bug and the check that catches it (confirmed with tools/detect.py)."""
import glob, json, os, re
FIRST_MISSED = set("""s06-shared-indexes s10-iadd-alias t02-const-weight-squared t02-nested-groups-selection t07-cut-negated t17-log-zero u06-square-shared u13-togroup-profile
u17-combined-config u21-groupkeys-first u21-interval-hash""".split())
extra = os.path.join(os.path.dirname(__file__), "missed.txt")
if os.path.exists(extra):
    FIRST_MISSED |= set(open(extra).read().split())
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
n = sum(map(len, by.values()))
out = ["## 8. Planted bugs and what catches them", "",
       "%d planted bugs in `seeded/` (each confirmed: applies, passes the stable tests, demonstration fails). `tools/detect.py` runs the check of" % n,
       "the bug's property on a scratch copy; every one of them is caught by the quick tier. * = missed when first planted, the check was then strengthened.", "",
       "| check | planted bugs it catches |", "|---|---|"]
for p in sorted(by):
    out.append("| %s | %s |" % (p, ", ".join(s + ("*" if s in FIRST_MISSED else "") for s in by[p])))
d = os.path.join(here, "DESIGN.md")
text = open(d).read()
text = re.sub(r"\n*<!-- matrix -->.*?<!-- /matrix -->\n*", "\n", text, flags=re.S).rstrip()
tail = "\n\n<!-- matrix -->\n" + "\n".join(out) + "\n<!-- /matrix -->\n"
text += tail
open(d, "w").write(text)
