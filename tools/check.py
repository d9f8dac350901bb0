#!/usr/bin/env python3
"""check.py P01          decide one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE  run a recorded violation again: exit 1 when it is still there"""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tla
from common import Check

MODULES = ["checks_codec", "checks_objects", "checks_arena", "checks_json", "checks_templates", "checks_threads"]


def find(prop):
    for m in MODULES:
        c = importlib.import_module(m).CHECKS
        if prop in c:
            return c[prop]
    raise SystemExit("no check for " + prop)


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        for m in MODULES:
            mod = importlib.import_module(m)
            if d["kind"] in getattr(mod, "KINDS", []):
                return 1 if mod.replay(d) else 0
        raise SystemExit("unknown kind " + d["kind"])
    ck = Check(sys.argv[1])
    try:
        find(sys.argv[1])(ck)
    except (build.BuildError, tla.ToolError) as e:
        print("ERROR %s" % e)
        if ck.violations:
            return ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        if ck.violations:
            return ck.finish()
        return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
