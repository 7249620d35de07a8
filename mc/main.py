"""Entry point: `python -m mc.main C01 quick` or `python -m mc.main replay FILE`."""
import importlib
import json
import logging
import os
import sys

from mc import core


def load(pid):
    return importlib.import_module("mc.%s" % pid.lower()).CHECK


def replay(path):
    rec = json.load(open(path))
    check = load(rec["property"])
    for m in check.preload:
        __import__(m)
    for space in check.spaces(rec["tier"]):
        if space.name != rec["space"]:
            continue
        for i, case in enumerate(space.cases()):
            if i == rec["index"]:
                msg = core.run_case(space, case, core.Ctx())
                print("case:", case)
                print("result:", msg if msg else "property holds")
                if msg:
                    print("VIOLATION property=%s replay=%s" % (rec["property"], path))
                return 1 if msg else 0
    print("no such case in the current enumeration")
    return 0


def main(argv):
    logging.disable(logging.CRITICAL)
    if argv and argv[0] == "replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.execute(load(pid), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
