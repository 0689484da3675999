"""Regenerates MANIFEST.json and known_findings.json from the built checks and /repo's fix commits."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
 "C16": "stateless model checking: all line-level thread schedules of the real code up to a preemption bound, against solo runs",
 "C20": "bounded exhaustive enumeration of configurations and fill histories on the real code over an executable model of Spark/pandas frames, against array fills and the rows-multiset reference model",
 "C05": "explicit-state enumeration of all expressions up to a size, with semantic equivalence classes as the model",
}
DEFAULT = "bounded explicit-state enumeration of all configurations/operation histories on the real code, against a rows-multiset reference model"
NOTE = "Every case within the stated bounds (see DESIGN.md and the evidence file) is executed on the library in /repo and compared with a model that recomputes the answer from the raw rows; nothing outside the bounds is claimed. Trusts numpy, PyPy and the reference model in mc/ref.py."
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT), "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
doc = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo; the checks import histbook from /repo's working tree (pure Python, no build product). HISTBOOK_REPO=DIR points the checks at another copy for development only."}
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
kf = os.path.join(here, "known_findings.json")
known = json.load(open(kf))["known"] if os.path.exists(kf) else []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s%x00%b%x01"], stdout=subprocess.PIPE, universal_newlines=True).stdout
fixed = []
for e in log.split("\x01"):
    e = e.strip("\n")
    if not e: continue
    hsh, subj, body = e.split("\0")
    if subj.startswith("fix:"):
        pid = [l.split(":")[1].strip() for l in body.splitlines() if l.startswith("Property:")][0]
        fixed.append("fixed: property=%s %s %s" % (pid, hsh, subj[4:].strip()))
json.dump({"known": known, "fixed": fixed}, open(kf, "w"), indent=1); open(kf, "a").write("\n")
