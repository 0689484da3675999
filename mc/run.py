"""python -m mc.run ID [quick|thorough]"""
import importlib
import os
import sys
import traceback

from mc import core


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        check = importlib.import_module("mc." + pid.lower()).CHECK
    except Exception:
        # the only thing imported here that can change is the library itself
        import json
        rdir = os.path.join(core.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + "-import.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "message": traceback.format_exc()}, f)
        print(traceback.format_exc())
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return core.main(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
