#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--root DIR]: decides one property from the source of /repo."""
import json
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def main(argv):
    from sa import decide
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    root = "/repo"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--root" in argv:
        root = argv[argv.index("--root") + 1]
    return decide.run(pid, tier, root, HERE)


if __name__ == "__main__":
    rc = [2]

    def go():
        try:
            rc[0] = main(sys.argv[1:])
        except Exception:
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
