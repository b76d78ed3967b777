#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--cases N]  |  check.py replay FILE  |  check.py all"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
def main(a):
    if a and a[0] == "replay": return harness.replay(a[1])
    kw = {}
    ids = []
    i = 0
    while i < len(a):
        if a[i] == "--tier": kw["tier"] = a[i + 1]; i += 2
        elif a[i] == "--seed": kw["seed"] = int(a[i + 1]); i += 2
        elif a[i] == "--cases": kw["cases"] = int(a[i + 1]); i += 2
        else: ids.append(a[i]); i += 1
    if ids == ["all"]:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")) if f[0] == "C" and f.endswith(".py"))
    rc = 0
    for p in ids: rc = max(rc, harness.check(p, **kw))
    return rc
if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
