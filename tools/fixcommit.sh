#!/bin/bash
# usage: fixcommit.sh C01 "what was wrong and is corrected"   (run the stable tests, then commit the fix in /repo)
cd /repo || exit 2
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P' || { echo TESTS FAIL; tail -40 /tmp/o.log; exit 1; }
import json,sys
d=json.load(open('/tmp/o.json')); sys.exit(0 if len(d['passed'])>=62 and not d['failed'] else 1)
P
git add -u && git commit -q -m "fix: $2" -m "Property: $1" && git log --oneline | head -1
