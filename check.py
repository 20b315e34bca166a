#!/usr/bin/env python3
"""check.py ID... : decides the property on /repo's current working tree."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import common  # noqa: E402


def main():
    rc = 0
    progs, paths = {}, {}
    for pid in sys.argv[1:]:
        mod = importlib.import_module("rules." + pid[0].lower())
        c = common.Check(pid)
        c.progs, c.facts_paths = progs, paths
        try:
            getattr(mod, pid)(c)
            rc |= c.finish()
        except Exception:
            traceback.print_exc()
            print(f"ERROR {pid}")
            rc |= 4
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
