#!/usr/bin/env python3
"""Appends a `fixed:` line to known_findings.txt for every fix: commit that has none yet.
Maintainer's tool, never run by a check. usage: gen_fixed.py HASH=PXX,PYY ..."""
import subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{root}/known_findings.txt"
have = open(p).read()
subj = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
with open(p, "a") as f:
    for a in sys.argv[1:]:
        h, ps = a.split("=")
        assert subj[h].startswith("fix: "), h
        for q in ps.split(","):
            line = f"fixed: property={q} {h} {subj[h][5:]}\n"
            if line not in have:
                f.write(line)
missing = [h for h, s in subj.items() if s.startswith("fix: ") and f" {h} " not in open(p).read()]
print("fix commits without a line:", missing)
