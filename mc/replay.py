"""python -m mc.replay FILE: runs the one recorded case again, directly, without pool or explorer state."""
import importlib
import json
import sys

from mc import core


def main(argv):
    with open(argv[1]) as f:
        doc = json.load(f)
    check = importlib.import_module("mc." + doc["property"].lower()).CHECK
    cx = core.run_case(check, doc["case"], doc.get("tier", "quick"))
    for f in cx.failures:
        print("sub %s\n%s\n" % (json.dumps(f["sub"], default=str), f["message"]))
    print("property %s: %d failures" % (doc["property"], len(cx.failures)))
    return 1 if cx.failures else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
