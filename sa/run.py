"""python3 -m sa.run <property> [--tier quick|thorough]: decide one property on /repo's source."""
from __future__ import annotations

import argparse
import importlib
import os
import resource
import sys
import threading


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--root", default=os.environ.get("SA_ROOT") or "/repo")
    a = ap.parse_args()
    mod = importlib.import_module("sa.checks." + a.property.lower())
    rc = [2]

    def body():
        from .world import ImportFailure
        try:
            rc[0] = mod.main(a.tier, a.root)
        except ImportFailure as e:
            print("ERROR", e)
            rc[0] = 2

    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == "__main__":
    main()
