#!/usr/bin/env python3
"""Decides one property of /repo's current source statically:  run.py PROPERTY [--tier quick|thorough] [--repo DIR] [--only QUAL]

exit 0: every obligation discharged; exit 1 + VIOLATION line: an obligation fails; exit 2: the analysis itself is broken."""
import argparse
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only")
    a = ap.parse_args()
    a.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from vg import decide
    return decide.run(a, HERE)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":      # one order of all sets: the same verdict on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if isinstance(rc[0], int) else 2)
