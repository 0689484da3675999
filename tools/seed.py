#!/usr/bin/env python3
"""usage: seed.py FILE.py [id...]   (development only)

FILE.py holds SEEDS: a list of dicts id, property, needs, breaks, edits [(file, old, new)], demo (Python text run with /repo as cwd). Every change is confirmed in a
scratch copy: it compiles, passes the stable tests, only changes original lines, the demonstration passes before and fails after; then written to seeded/ID."""
import json, os, runpy, shutil, subprocess, sys

BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
MINE = set(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"], text=True).split())
PY = "/opt/venv-pypy/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONWARNINGS="ignore")
ENV.pop("PYTHONPATH", None)
STABLE = None


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    bad = 0
    for s in seeds:
        if only and s["id"] not in only:
            continue
        msg = one(s)
        print("%-28s %s %s" % (s["id"], s["property"], msg), flush=True)
        bad += msg != "ok"
    return bad


def one(s):
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    try:
        return confirm(s, wt)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def confirm(s, wt):
    for f, old, new in s["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "EDIT matches %d times: %r" % (t.count(old), old[:60])
        # lines of the old text that the edit removes must be original
        start = t[:t.index(old)].count("\n") + 1
        oldl, newl = old.split("\n"), new.split("\n")
        blame = subprocess.check_output(["git", "-C", wt, "blame", "-l", "-s", "-L", "%d,%d" % (start, start + len(oldl) - 1), f], text=True).split("\n")
        for b, l in zip(blame, oldl):
            if l.strip() and l not in newl and b.split(" ")[0].lstrip("^") in MINE:
                return "NOT ORIGINAL: " + b
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "-x", "tests"], cwd=wt, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
    if r.returncode:
        return "TESTS FAIL: " + [l for l in r.stdout.split("\n") if l.strip()][-2][:200]
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter(\"ignore\")\nimport numpy, histbook\nfrom histbook import *\nfrom histbook.axis import *\n" + s["demo"].strip("\n") + "\n")
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: as it should be; anything else: broken\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv-pypy/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    out = []
    for cwd in ("/repo", wt):
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, env=ENV, capture_output=True, text=True)
        out.append((r.returncode, (r.stdout + r.stderr).strip().split("\n")[-1][:200]))
    if out[0][0] != 0 or out[1][0] == 0:
        return "DEMO %r" % (out,)
    return "ok"


if __name__ == "__main__":
    sys.exit(main())
