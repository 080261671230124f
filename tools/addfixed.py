#!/usr/bin/env python3
"""addfixed.py <ID> <N>: append 'fixed:' lines for the last N /repo commits to known_findings.txt"""
import sys, subprocess
o = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "-" + sys.argv[2]], capture_output=True, text=True).stdout.split("\n")
with open("/verif/known_findings.txt", "a") as f:
    for l in reversed([x for x in o if x]):
        h, m = l.split(" ", 1); assert m.startswith("fix: "); f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, m[5:]))
