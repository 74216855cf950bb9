#!/usr/bin/env python3
"""kf.py PROP 'subject prefix of the fix commit' 'what failed': record a repaired defect."""
import subprocess, sys, os
p, subj, what = sys.argv[1:]
h = [l.split(" ", 1)[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("fix: " + subj)]
assert len(h) == 1, h
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.txt"
open(f, "a").write("fixed: property=%s %s %s\n" % (p, h[0], what))
