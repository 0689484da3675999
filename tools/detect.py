#!/usr/bin/env python3
"""usage: detect.py [-a] [seed...]   (development only) runs the property's check (-a: every check) against scratch copies with the planted bugs applied"""
import glob, json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
every = "-a" in a
a = [x for x in a if x != "-a"]
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    s = os.path.basename(d)
    if a and not any(s.startswith(x) for x in a):
        continue
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/detectwt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    if subprocess.call(["git", "-C", wt, "apply", d + "/patch.diff"]):
        print(s, "PATCH DOES NOT APPLY"); continue
    props = [prop] if not every else sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(ROOT + "/mc/c??.py"))
    res = []
    for p in props:
        t = time.time()
        r = subprocess.run(["./check.sh", p, "quick"], cwd=ROOT, env=dict(os.environ, HISTBOOK_REPO=wt), capture_output=True, text=True)
        hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
        res.append("%s:%s" % (p, "caught" if hit else "quiet" if r.returncode == 0 else "rc%d" % r.returncode) + ("(%.0fs)" % (time.time() - t) if not every else ""))
    print("%-28s %s  %s" % (s, prop, " ".join(x for x in res if not every or not x.endswith("quiet"))), flush=True)
    shutil.rmtree(wt, ignore_errors=True)
for f in glob.glob(ROOT + "/replays/*"):
    os.remove(f)
