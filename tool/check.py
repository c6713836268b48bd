#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)

from spx import chk  # noqa: E402


def main():
    p = sys.argv[1]
    title = p
    with open(os.path.join(chk.VERIF, "properties.jsonl")) as f:
        for l in f:
            d = json.loads(l)
            if d["id"] == p:
                title = d["title"]
    m = importlib.import_module("checks." + p.lower())
    rc = [3]

    def go():
        rc[0] = chk.run(p, title, m.body)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0])


if __name__ == "__main__":
    main()
