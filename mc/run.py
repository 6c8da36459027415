"""Command line: python -m mc.run ID [quick|thorough]  |  python -m mc.run --replay FILE"""
import importlib
import json
import os
import sys
import traceback


def load(pid):
    try:
        return importlib.import_module("checks." + pid.lower())
    except Exception:
        # the harness imports hpelm; if that import breaks, the property cannot hold
        traceback.print_exc()
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + "-import.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": None, "message": traceback.format_exc()}, f)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)


def main(argv):
    from mc import core
    if argv[0] == "--replay":
        rec = json.load(open(argv[1]))
        mod = load(rec["property"])
        ctx = core.run_one(mod, rec["case"])
        for v in ctx.violations:
            print("VIOLATED:", v["msg"])
        print("%d violation(s) in this case" % len(ctx.violations))
        return 1 if ctx.violations else 0
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return core.main_check(load(argv[0]), tier, seed)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
